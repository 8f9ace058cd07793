"""Abstract semantics of the library functions the workspace calls (or may call after an edit)."""
from .terms import *
from .facts import LZ, STREQ, Facts, FULL, mask_range, set_nvariants
from .values import *
from .interp import Giveup, norm_segs, unify
from . import mir
from .mir import ADTS, ADT_BY_PATH

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def adt(path):
    a = ADT_BY_PATH.get(path)
    if a is None:
        for i in ADTS.values():
            if i['path'] == path:
                return i
        # a type no analysed crate mentions: give it an identity of our own
        vs = {'std::option::Option': [('None', 0), ('Some', 1)], 'std::result::Result': [('Ok', 1), ('Err', 1)],
              'std::cmp::Ordering': [('Less', 0), ('Equal', 0), ('Greater', 0)]}.get(path)
        if vs is None:
            raise Giveup('no type ' + path)
        a = {'path': path, 'key': path, 'kind': 'enum', 'gen': [], 'local': False, 'full': True, 'span': '', 'name': path.rsplit('::', 1)[-1], 'crate': None,
             'variants': [{'n': n, 'd': i, 'f': [('0', ('param', 'T'), True)] * k} for i, (n, k) in enumerate(vs)]}
        ADTS[path] = a
        ADT_BY_PATH[path] = a
    return a


def some(v):
    return Agg(('adt', adt('std::option::Option')['key']), 1, (v,))


def none():
    return Agg(('adt', adt('std::option::Option')['key']), 0, ())


def ok(v):
    return Agg(('adt', adt('std::result::Result')['key']), 0, (v,))


def err(v):
    return Agg(('adt', adt('std::result::Result')['key']), 1, (v,))


def ordering(i):
    a = adt('std::cmp::Ordering')
    return Agg(('adt', a['key']), i, ())


def opt_ty(t):
    return ('adt', adt('std::option::Option')['key'], (t,))


def ret(st, v):
    return [(st, v)]


def seq_at(I, st, v):
    """(ref-like value) -> Slice over the sequence it designates"""
    for _ in range(8):
        c = v.__class__
        if c is Slice:
            return v
        if c is Ref:
            w = I.read(st, v.obj, v.path)
            if w.__class__ in (Ref, Slice):
                v = w
                continue
            if w.__class__ is Agg and w.tag[0] == 'box':
                x = w.f[0]
                if x.__class__ in (Ref, Slice):
                    v = x
                else:
                    v = Ref(v.obj, v.path + (('f', 0, None),), v.mut)
                continue
            if w.__class__ is Agg and w.tag[0] == 'cow':
                x = w.f[0]
                if x.__class__ is Seq:
                    v = Ref(v.obj, v.path + (('f', 0, None),), v.mut)
                else:
                    v = x
                continue
            isstr = False
            if w.__class__ is Sym:
                isstr = w.ty[0] == 'str' or (w.ty[0] == 'adt' and ADTS[w.ty[1]]['name'] == 'String')
                if w.ty[0] == 'adt' and ADTS[w.ty[1]]['name'] in ('Cow',):
                    # borrowed or owned text: a sequence either way
                    inner = w.ty[2][0]
                    n = atom(T('len', w.t, ty=LEN))
                    o = ('D', T('cow', w.t))
                    if o not in st.objs:
                        st.objs[o] = Seq((('s', T('seq', w.t), ZERO, n),), n, elem_ty(inner) if is_seq_ty(inner) else None)
                    return Slice(o, (), ZERO, n, inner[0] == 'str')
                w = I.expand(st, w)
            if w.__class__ is Seq:
                return Slice(v.obj, v.path, ZERO, w.n, isstr, v.mut)
            raise Giveup('sequence behind %r' % (w,))
        if c is Agg and v.tag[0] == 'box':
            v = v.f[0]
            continue
        raise Giveup('sequence of %r' % (v,))
    raise Giveup('sequence')


def seq_of(I, st, v):
    """Seq value of a by-value or by-reference sequence"""
    c = v.__class__
    if c is Seq:
        return v
    if c is Sym and is_seq_ty(v.ty):
        return I.expand(st, v)
    if c is Sym and v.ty[0] == 'adt' and ADTS[v.ty[1]]['name'] == 'Cow':
        n = atom(T('len', v.t, ty=LEN))
        inner = v.ty[2][0]
        return Seq((('s', T('seq', v.t), ZERO, n),), n, elem_ty(inner))
    if c is Agg and v.tag[0] in ('box', 'cow'):
        return seq_of(I, st, v.f[0])
    return I.slice_seq(st, seq_at(I, st, v))


def map_at(I, st, v):
    """(ref to map) -> (obj, path, Map)"""
    for _ in range(6):
        if v.__class__ is Ref:
            w = I.read(st, v.obj, v.path)
            if w.__class__ is Ref:
                v = w
                continue
            w = I.expand(st, w)
            if w.__class__ is Map:
                return v.obj, v.path, w
            raise Giveup('map behind %r' % (w,))
        break
    raise Giveup('map of %r' % (v,))


def tmp(I, st, v, mut=False):
    """a reference to a fresh temporary holding v"""
    o = ('T', fresh('tmp'))
    st.objs[o] = v
    return Ref(o, (), mut)


def tmpslice(I, st, q, isstr=False):
    o = ('T', fresh('tmp'))
    st.objs[o] = q
    return Slice(o, (), ZERO, q.n, isstr)


def isvec(name):
    return lambda ty: ty[0] == 'adt' and ADTS[ty[1]]['name'] == name


# ------------------------------------------------------------------ primitives of the prelude
PRIMS = {}


def prim(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
            PRIMS[n] = f
        return f
    return d


@prim('__retry')
def p_retry(c, st, a):
    from .interp import RETRY
    return [(st, RETRY)]


def elem_of(c, st, a, i):
    I = c.I
    s = seq_at(I, st, a)
    v = I.read(st, s.obj, s.path)
    v = I.expand(st, v)
    return s, I.seq_get(st, v, s.lo + i)


@prim('__elem', '__velem', '__byte')
def m_elem(c, st, a):
    return ret(st, elem_of(c, st, a[0], a[1])[1])


@prim('__eref', '__eref_mut')
def m_eref(c, st, a):
    s = seq_at(c.I, st, a[0])
    return ret(st, elem_ref(c.I, st, s, a[1], c.cn.endswith('mut')))


def elem_ref(I, st, s, i, mut=False):
    """reference to element i of a slice; an element that is itself a reference is not copied"""
    return Ref(s.obj, s.path + (('i', I.nrm(st, s.lo + i)),), mut)


@prim('__sub', '__sub_mut', '__ssub')
def m_sub(c, st, a):
    s = seq_at(c.I, st, a[0])
    return ret(st, Slice(s.obj, s.path, s.lo + a[1], a[2], s.st, s.mut))


@prim('__slen', '__strlen')
def m_slen(c, st, a):
    return ret(st, seq_at(c.I, st, a[0]).n)


@prim('__wide_char')
def m_wide(c, st, a):
    s = seq_at(c.I, st, a[0])
    # the character is decided by the bytes from there on
    q = c.I.slice_seq(st, s)
    if len(q.segs) == 1 and q.segs[0][0] == 's':
        at = (q.segs[0][1], c.I.nrm(st, q.segs[0][2] + a[1]))
    else:
        at = (c.I.seqterm(st, q), c.I.nrm(st, a[1]))
    ch = T('wchar', *at, ty=('char',))
    w = T('wwidth', *at, ty=('int', False, 64, 'usize'))
    st.facts._set_iv(ch, 0x80, 0x10ffff)
    st.facts._set_iv(w, 2, 4)
    st.facts.add_le(a[1] + atom(w) - s.n)
    st.ghost[('bound', s.obj, s.path, s.lo + a[1] + atom(w))] = True
    return ret(st, Agg(('tuple',), 0, (atom(ch), atom(w))))


@prim('__wide_char_back')
def m_wideb(c, st, a):
    ch = fresh('char', ('char',))
    w = fresh('w', ('int', False, 64, 'usize'))
    st.facts._set_iv(ch, 0x80, 0x10ffff)
    st.facts._set_iv(w, 2, 4)
    st.facts.add_le(atom(w) - a[1])
    return ret(st, Agg(('tuple',), 0, (atom(ch), atom(w))))


@prim('__wide_const')
def m_wide_const(c, st, a):
    I = c.I
    s = st.copy()
    ch = T('somechar', ty=('char',))
    s.facts._set_iv(ch, 0x80, 0x10ffff)
    I.trial += 1
    try:
        r = {v if v is True or v is False else s2.facts.decide(v) for s2, v in I.call_value(s, c.fr, c.b, a[0], [atom(ch)], None) if not s2.facts.dead}
    except Giveup:
        r = set()
    finally:
        I.trial -= 1
    return ret(st, const(0 if r == {False} else 1 if r == {True} else 2))


def elem_index(v):
    return v


@prim('__mkey')
def m_mkey(c, st, a):
    o, p, m = map_at(c.I, st, a[0])
    return ret(st, Ref(o, p + (('mki', a[1]),)))


@prim('__mval', '__mvalm')
def m_mval(c, st, a):
    o, p, m = map_at(c.I, st, a[0])
    return ret(st, Ref(o, p + (('mi', a[1]),), c.cn.endswith('mvalm')))


@prim('__mlen')
def m_mlen(c, st, a):
    return ret(st, map_at(c.I, st, a[0])[2].n)


@prim('__iter')
def m_iter_(c, st, a):
    return into_iter(c, st, a[0])


# ------------------------------------------------------------------ iterators over containers
def prel(c, st, name, args):
    fn = c.I.prog.prelude.get(name)
    if fn is None:
        raise Giveup('no prelude fn ' + name)
    return c.I.call_fn(st, fn, args, {}, (c.b, name), c.fr, None, prel=True)


def into_iter(c, st, v):
    I = c.I
    k = v.__class__
    if k is Slice:
        return prel(c, st, '__siter_mut' if v.mut and not v.st and False else '__siter', [v])
    if k is Seq:
        return prel(c, st, '__viter', [v])
    if k is Sym:
        if is_seq_ty(v.ty):
            return prel(c, st, '__viter', [I.expand(st, v)])
        if is_map_ty(v.ty):
            v = I.expand(st, v)
            k = Map
        elif v.ty[0] == 'adt' and ADTS[v.ty[1]]['name'] == 'Option':
            return prel(c, st, 'Option__into_iter', [v])
    if k is Map:
        r = tmp(I, st, v)
        return prel(c, st, '__miter', [r])
    if k is Agg and v.tag[0] == 'adt' and ADTS[v.tag[1]]['name'] == 'Option':
        return prel(c, st, 'Option__into_iter', [v])
    if k is Ref:
        w = I.read(st, v.obj, v.path)
        if w.__class__ is Sym and (is_seq_ty(w.ty) or is_map_ty(w.ty)):
            w = I.expand(st, w)
        if w.__class__ is Seq:
            mut = v.mut and c.selfty is not None and c.selfty[0] == 'ref' and c.selfty[1]
            s = Slice(v.obj, v.path, ZERO, w.n, False, mut)
            return prel(c, st, '__siter_mut' if mut else '__siter', [s])
        if w.__class__ is Map:
            mut = v.mut and c.selfty is not None and c.selfty[0] == 'ref' and c.selfty[1]
            return prel(c, st, '__miter_mut' if mut else '__miter', [v])
        if w.__class__ in (Slice,):
            return prel(c, st, '__siter', [w])
        return None
    return None


@model('IntoIterator::into_iter')
def m_into_iter(c, st, a):
    r = into_iter(c, st, a[0])
    return r if r is not None else ret(st, a[0])


@model('[T]::iter', 'Vec::iter', 'VecDeque::iter')
def m_iter(c, st, a):
    return prel(c, st, '__siter', [seq_at(c.I, st, a[0])])


@model('[T]::iter_mut', 'Vec::iter_mut')
def m_iter_mut(c, st, a):
    s = seq_at(c.I, st, a[0])
    return prel(c, st, '__siter_mut', [Slice(s.obj, s.path, s.lo, s.n, s.st, True)])


@model('BTreeMap::iter', 'HashMap::iter')
def m_miter(c, st, a):
    return prel(c, st, '__miter', [a[0]])


@model('BTreeMap::iter_mut', 'HashMap::iter_mut')
def m_miter_mut(c, st, a):
    return prel(c, st, '__miter_mut', [a[0]])


@model('BTreeMap::keys', 'HashMap::keys')
def m_mkeys(c, st, a):
    return prel(c, st, '__mkeys', [a[0]])


@model('BTreeMap::values', 'HashMap::values')
def m_mvals(c, st, a):
    return prel(c, st, '__mvals', [a[0]])


@model('BTreeMap::values_mut', 'HashMap::values_mut')
def m_mvals_mut(c, st, a):
    return prel(c, st, '__mvals_mut', [a[0]])


for _n in ('chunks', 'chunks_exact', 'windows'):
    def _mk(n):
        def f(c, st, a):
            return prel(c, st, '__' + n, [seq_at(c.I, st, a[0]), a[1]])
        return f
    MODELS['[T]::' + _n] = _mk(_n)


@model('str::chars')
def m_chars(c, st, a):
    return prel(c, st, '__chars', [seq_at(c.I, st, a[0])])


@model('str::char_indices')
def m_char_idx(c, st, a):
    return prel(c, st, '__char_indices', [seq_at(c.I, st, a[0])])


@model('str::bytes')
def m_bytes(c, st, a):
    return prel(c, st, '__bytes', [seq_at(c.I, st, a[0])])


def chars_prefix(c, st, it):
    """the text of the remaining (or the next n) characters of a string: a prefix of its rest"""
    I = c.I
    n = None
    if it.__class__ is Agg and adtname(it) == 'PTake':
        n, it = it.f[1], it.f[0]
    if it.__class__ is not Agg or adtname(it) != 'PChars':
        return None
    s, i, e = it.f
    if s.__class__ is not Slice:
        return None
    q = I.seq_sub(st, I.slice_seq(st, s), i, e - i)
    if n is None:
        return ret(st, q)
    t = atom(T('charprefix', I.seqterm(st, q), n, ty=USIZE))
    F = st.facts
    F.add_le(-t)
    F.add_le(t - q.n)
    F.add_le(t - n * 4)
    if F.dead:
        return []
    return ret(st, I.seq_sub(st, q, ZERO, t))


def adtname(v):
    return mir.ADTS[v.tag[1]]['name'] if v.tag[0] == 'adt' else None


@model('Iterator::collect')
def m_collect(c, st, a):
    d = c.dty
    for t in reversed(c.targs):
        if t[0] == 'adt' and d is None:
            d = t
    k = mir.tname(d) if d else '?'
    it = a[0]
    if k in ('Vec', 'VecDeque', 'Box', 'String', 'HashMap'):
        announced(c, st, it)
    if k == 'Vec' or k == 'VecDeque':
        return prel(c, st, '__collect_vec', [it])
    if k == 'Box':
        return prel(c, st, '__collect_vec', [it])
    if k == 'String':
        q = chars_prefix(c, st, it)
        if q is not None:
            return q
        return prel(c, st, '__collect_string', [it])
    if k == 'BTreeMap':
        return prel(c, st, '__collect_btree', [it])
    if k == 'HashMap':
        return prel(c, st, '__collect_hash', [it])
    if k in ('Option', 'Result') and d[2]:
        j = {'Vec': 'vec', 'VecDeque': 'vec', 'Box': 'vec', 'String': 'string', 'BTreeMap': 'btree', 'HashMap': 'hash'}.get(mir.tname(d[2][0]))
        if j:
            return prel(c, st, '__collect_%s_%s' % ('opt' if k == 'Option' else 'res', j), [it])
    return None


@model('Extend::extend')
def m_extend(c, st, a):
    I = c.I
    outs = []
    it = a[1]
    its = into_iter(c, st, it) or ret(st, it)
    for s2, it2 in its:
        announced(c, s2, it2)
        v = a[0]
        w = I.expand(s2, I.read(s2, v.obj, v.path)) if v.__class__ is Ref else None
        if w.__class__ is Map:
            outs += prel(c, s2, '__extend_map', [v, it2])
        elif w.__class__ is Seq:
            isstr = c.selfty is not None and mir.tname(c.selfty) == 'String'
            ref = len(c.targs) > 1 and c.targs[1][0] == 'ref'
            qs = chars_prefix(c, s2, it2) if isstr and it2.__class__ is Agg else None
            if qs is not None:
                for s3, q in qs:
                    r, q0 = vec_ref(I, s3, v)
                    wr(I, s3, r, I.seq_cat(s3, q0, q))
                    s3.emit('extend', (r.obj, r.path), q)
                    outs.append((s3, UNIT))
                continue
            outs += prel(c, s2, '__extend_string' if isstr else '__extend_vec_ref' if ref else '__extend_vec', [v, it2])
        else:
            return None
    return outs


@model('Iterator::try_fold')
def m_try_fold(c, st, a):
    k = mir.tname(c.dty) if c.dty else '?'
    return prel(c, st, 'Iterator__try_fold_opt' if k == 'Option' else 'Iterator__try_fold_res', list(a))


@model('Iterator::size_hint')
def m_size_hint(c, st, a):
    return None


# ------------------------------------------------------------------ sequences
def reserved(c, st, n):
    """room for n elements is asked for at once"""
    f = c.I.opts.get('alloc')
    if f and not c.I.trial:
        f(c.I, st, c.fr, c.b, n)


SAME = {'PRev', 'PMap', 'PEnumerate', 'PCloned', 'PInspect', 'PPeek', 'PSkip', 'PStepBy'}


def hints(it):
    """bounds of what the iterator announces; none when it has no end"""
    if it.__class__ is not Agg or it.tag[0] != 'adt':
        return [ZERO]
    k = adtname(it)
    if k in SAME:
        return hints(it.f[0])
    if k == 'PZip':
        a = hints(it.f[0]) + hints(it.f[1])
        return [ZERO] if ZERO in a else a
    if k == 'PTake':
        return [x for x in hints(it.f[0]) if x is not ZERO] + [it.f[1]] if ZERO not in hints(it.f[0]) else [ZERO]
    if k == 'PChain':
        a, b = hints(it.f[0]), hints(it.f[1])
        return [x + y for x in a for y in b]
    if k == 'Range':
        return [it.f[1] - it.f[0]] if it.f[0].__class__ is Lin and it.f[1].__class__ is Lin else [ZERO]
    if k == 'PRangeIncl':
        return [it.f[2] - it.f[0]] if it.f[0].__class__ is Lin and it.f[2].__class__ is Lin else [ZERO]
    if k in ('PRepeat', 'PRepeatWith', 'RangeFrom'):
        return []
    return [ZERO]


def announced(c, st, it):
    """collect and extend ask for what the iterator announces"""
    f = c.I.opts.get('alloc')
    if f and not c.I.trial:
        h = [x for x in hints(it) if x.__class__ is Lin]
        if not h or not any(st.facts.decide(leq(x, const(64))) is True for x in h):
            f(c.I, st, c.fr, c.b, h)


@model('vec::from_elem')
def m_from_elem(c, st, a):
    ety = c.targs[0] if c.targs else (c.dty[2][0] if c.dty and c.dty[0] == 'adt' and c.dty[2] else ('other', None))
    c.oblige(st, 'capacity', leq(a[1], const((1 << 63) - 1)))
    reserved(c, st, a[1])
    return ret(st, Seq(norm_segs((('r', a[0], a[1]),)), a[1], ety, ()))


@model('Vec::new', 'String::new', 'VecDeque::new', 'Vec::with_capacity', 'String::with_capacity', 'VecDeque::with_capacity')
def m_vnew(c, st, a):
    ety = U8 if c.cn.startswith('String') else (c.targs[0] if c.targs else (c.dty[2][0] if c.dty and c.dty[0] == 'adt' and c.dty[2] else ('other', None)))
    if c.cn.endswith('with_capacity'):
        c.oblige(st, 'capacity', leq(a[0], const((1 << 63) - 1)))
        st.emit('alloc', a[0], c.fr.fn.path)
        reserved(c, st, a[0])
    return ret(st, Seq((), ZERO, ety, (), ZERO))


@model('[T]::len', 'Vec::len', 'str::len', 'String::len', 'VecDeque::len')
def m_len(c, st, a):
    return ret(st, seq_at(c.I, st, a[0]).n)


@model('ExactSizeIterator::len')
def m_eslen(c, st, a):
    return None


@model('[T]::is_empty', 'Vec::is_empty', 'str::is_empty', 'String::is_empty', 'VecDeque::is_empty', 'OsStr::is_empty')
def m_is_empty(c, st, a):
    try:
        return ret(st, eq0(seq_at(c.I, st, a[0]).n))
    except Giveup:
        return None


def wr(I, st, r, v):
    I.write(st, r.obj, r.path, v)


def vec_ref(I, st, v):
    """&mut Vec -> (Ref, Seq)"""
    for _ in range(4):
        if v.__class__ is Ref:
            w = I.read(st, v.obj, v.path)
            if w.__class__ is Ref:
                v = w
                continue
            w = I.expand(st, w)
            if w.__class__ is Seq:
                return v, w
        break
    raise Giveup('vector behind %r' % (v,))


def payload(v):
    """the only integer an element carries, if it carries exactly one"""
    if v.__class__ is Agg:
        r = [payload(x) for x in v.f]
        r = [x for x in r if x is not None]
        if len(r) == 1:
            return r[0]
        return None
    if v.__class__ is Lin:
        return v
    return None


def push(c, st, r, q, v):
    gh = None
    p = payload(v)
    g0 = ZERO if q.n is ZERO else q.gh
    if p is not None and g0 is not None and (c.I.optimistic or st.facts.prove_le(g0 - p)):
        gh = p
    if c.I.opts.get("dbg"): print("PUSH", q, q.gh, v, p, gh, c.I.optimistic)
    new = Seq(norm_push(q.segs, v, st), q.n + 1, q.ety, q.ov, gh)
    wr(c.I, st, r, new)


def norm_push(segs, v, st):
    # pushing base[k] after a segment that ends at base[k-1] extends the segment
    t = v.t if v.__class__ is Sym else v.single() if v.__class__ is Lin else None
    if t is not None and t.op == 'elem' and segs and segs[-1][0] == 's' and segs[-1][1] is t.args[0] and (segs[-1][2] + segs[-1][3]) is t.args[1]:
        s = segs[-1]
        return segs[:-1] + (('s', s[1], s[2], s[3] + 1),)
    return segs + (('e', v),)


@model('Vec::push', 'VecDeque::push_back')
def m_push(c, st, a):
    r, q = vec_ref(c.I, st, a[0])
    st.emit('push', (r.obj, r.path), a[1])
    push(c, st, r, q, a[1])
    return ret(st, UNIT)


@model('Vec::pop', 'VecDeque::pop_back', 'String::pop')
def m_pop(c, st, a):
    I = c.I
    outs = []
    r, q = vec_ref(I, st, a[0])
    for s2, nonempty in I.branch(st, lt(0, q.n)):
        if not nonempty:
            outs.append((s2, none()))
            continue
        if c.cn == 'String::pop':
            last = I.seq_get(s2, q, q.n - 1)
            if not (last.__class__ is Lin and s2.facts.decide(leq(last, const(127))) is True):
                I.note_havoc('String::pop (wide)')
                wr(I, s2, r, I.havoc_val(s2, q, 'pop'))
                ch = fresh('char', ('char',))
                outs.append((s2, some(atom(ch))))
                continue
        v = I.seq_get(s2, q, q.n - 1)
        gh = None
        if q.gh is not None:
            v2, gh = pop_payload(I, s2, v, q.gh)
            if gh is not None:
                v = v2
        nq = I.seq_sub(s2, q, ZERO, q.n - 1)
        wr(I, s2, r, Seq(nq.segs, nq.n, q.ety, nq.ov, gh))
        s2.emit('pop', (r.obj, r.path), v)
        outs.append((s2, some(v)))
    return outs


class PayloadHook:
    """bounds the payload of a popped element once its variant is known"""

    def __init__(self, ub, y):
        self.ub, self.y = ub, y

    def on_variant(self, I, st, i):
        return True


def pop_payload(I, st, v, ub):
    """element popped from a stack whose payloads are sorted and bounded by ub: its payload is at
    most ub, and what remains is bounded by it"""
    p = payload(v)
    if p is not None:
        st.facts.add_le(p - ub)
        return v, p
    if v.__class__ is Sym and v.ty[0] == 'adt' and ADTS[v.ty[1]]['kind'] == 'enum' and ADTS[v.ty[1]]['local']:
        info = ADTS[v.ty[1]]
        y = None
        # every variant carries exactly one usize: give them all the same name
        for k, x in enumerate(info['variants']):
            ints = [i for i, f in enumerate(x['f']) if f[1] == USIZE]
            if len(ints) != 1:
                return v, None
        fs = []
        for k, x in enumerate(info['variants']):
            i = [i for i, f in enumerate(x['f']) if f[1] == USIZE][0]
            p = atom(T('fld', v.t, k, i, ty=USIZE))
            fs.append(p)
        y = atom(T('payload', v.t, ty=USIZE))
        st.facts.add_le(y - ub)
        for p in fs:
            # whichever variant it is, its payload is y (the other fields do not exist)
            st.facts.add_eq(p - y)
        return v, y
    if v.__class__ is Sym and v.ty[0] == 'adt' and ADTS[v.ty[1]]['local'] or v.__class__ is Sym and v.ty[0] == 'tuple':
        w = I.expand(st, v)
        if w.__class__ is Agg:
            ps = [x for x in w.f if x.__class__ is Lin]
            if len(ps) == 1:
                st.facts.add_le(ps[0] - ub)
                return w, ps[0]
    return v, None


@model('Vec::clear', 'String::clear', 'VecDeque::clear')
def m_clear(c, st, a):
    r, q = vec_ref(c.I, st, a[0])
    wr(c.I, st, r, Seq((), ZERO, q.ety, (), ZERO))
    st.emit('clear', (r.obj, r.path))
    return ret(st, UNIT)


@model('BTreeMap::clear', 'HashMap::clear')
def m_mclear(c, st, a):
    o, p, m = map_at(c.I, st, a[0])
    st.emit('mclear', (o, p))
    c.I.write(st, o, p, Map(T('fresh', 'empty', 0), (), ZERO, m.kty, m.vty))
    return ret(st, UNIT)


@model('Vec::shrink_to_fit', 'Vec::reserve', 'String::reserve', 'String::shrink_to_fit', 'HashMap::shrink_to_fit', 'Vec::reserve_exact')
def m_noop(c, st, a):
    if len(a) > 1 and a[1].__class__ is Lin:
        c.oblige(st, 'capacity', leq(a[1], const((1 << 63) - 1)))
        st.emit('alloc', a[1], c.fr.fn.path)
        reserved(c, st, a[1])
    return ret(st, UNIT)


@model('Vec::truncate')
def m_truncate(c, st, a):
    I = c.I
    outs = []
    r, q = vec_ref(I, st, a[0])
    for s2, shorter in I.branch(st, lt(a[1], q.n)):
        if shorter:
            n = I.seq_sub(s2, q, ZERO, a[1])
            wr(I, s2, r, Seq(n.segs, n.n, q.ety, n.ov))
        s2.emit('truncate', (r.obj, r.path), a[1])
        outs.append((s2, UNIT))
    return outs


@model('Vec::resize')
def m_resize(c, st, a):
    I = c.I
    outs = []
    r, q = vec_ref(I, st, a[0])
    st.emit('alloc', a[1], c.fr.fn.path)
    reserved(c, st, a[1])
    for s2, shorter in I.branch(st, lt(a[1], q.n)):
        if shorter:
            n = I.seq_sub(s2, q, ZERO, a[1])
            wr(I, s2, r, Seq(n.segs, n.n, q.ety, n.ov))
        else:
            d = a[1] - q.n
            wr(I, s2, r, Seq(norm_segs(q.segs + (('r', a[2], d),)), a[1], q.ety, q.ov))
        outs.append((s2, UNIT))
    return outs


@model('Vec::insert', 'VecDeque::insert')
def m_insert(c, st, a):
    I = c.I
    r, q = vec_ref(I, st, a[0])
    if not c.oblige(st, 'Vec::insert index', leq(a[1], q.n)):
        return []
    st.emit('insert', (r.obj, r.path), a[1], a[2], q)
    if a[1] is q.n or st.facts.decide(eq(a[1], q.n)) is True:
        push(c, st, r, q, a[2])
        return ret(st, UNIT)
    x = I.seq_sub(st, q, ZERO, a[1])
    y = I.seq_sub(st, q, a[1], q.n - a[1])
    if q.ov:
        wr(I, st, r, I.havoc_val(st, q, 'insert'))
        return ret(st, UNIT)
    g, h = (x.segs[-1], y.segs[0]) if x.segs and y.segs else (('?',), ('?',))
    if g[0] == h[0] == 's' and g[1] is h[1] and g[2] + g[3] + 1 is h[2]:
        # an element takes the place of the one that was removed there
        wr(I, st, r, I.seq_set(st, Seq(x.segs[:-1] + (('s', g[1], g[2], g[3] + 1 + h[3]),) + y.segs[1:], q.n + 1, q.ety), a[1], a[2]))
        return ret(st, UNIT)
    wr(I, st, r, Seq(norm_segs(x.segs + (('e', a[2]),) + y.segs), q.n + 1, q.ety))
    return ret(st, UNIT)


@model('Vec::remove', 'Vec::swap_remove')
def m_remove(c, st, a):
    I = c.I
    r, q = vec_ref(I, st, a[0])
    if not c.oblige(st, 'Vec::remove index', lt(a[1], q.n)):
        return []
    v = I.seq_get(st, q, a[1])
    st.emit('remove', (r.obj, r.path), a[1], v)
    if c.cn.endswith('swap_remove') or q.ov:
        n = I.havoc_val(st, q, 'swap_remove')
        st.facts.add_eq(n.n - q.n + 1)
        wr(I, st, r, n)
        return ret(st, v)
    x = I.seq_sub(st, q, ZERO, a[1])
    y = I.seq_sub(st, q, a[1] + 1, q.n - a[1] - 1)
    wr(I, st, r, Seq(norm_segs(x.segs + y.segs), q.n - 1, q.ety))
    return ret(st, v)


@model('[T]::reverse')
def m_reverse(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    q = I.slice_seq(st, s)
    if q.ov:
        new = Seq((('s', T('revof', I.seqterm(st, q)), ZERO, q.n),), q.n, q.ety)
    else:
        segs = []
        for g in reversed(q.segs):
            if g[0] == 's':
                segs.append(('rs',) + g[1:])
            elif g[0] == 'rs':
                segs.append(('s',) + g[1:])
            elif g[0] == 'c':
                segs.append(('c', g[1][::-1]))
            else:
                segs.append(g)
        new = Seq(norm_segs(segs), q.n, q.ety)
    w = I.expand(st, I.read(st, s.obj, s.path))
    if s.lo is ZERO and s.n is w.n:
        I.write(st, s.obj, s.path, Seq(new.segs, new.n, q.ety))
    else:
        I.write(st, s.obj, s.path + (('sl', s.lo, s.n),), new)
    st.emit('reverse', (s.obj, s.path))
    return ret(st, UNIT)


@model('[T]::sort', '[T]::sort_unstable', '[T]::sort_by', '[T]::sort_by_key', '[T]::sort_unstable_by', '[T]::sort_unstable_by_key')
def m_sort(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    q = I.slice_seq(st, s)
    new = Seq((('s', T('sorted', I.seqterm(st, q), c.cn), ZERO, q.n),), q.n, q.ety)
    w = I.expand(st, I.read(st, s.obj, s.path))
    if s.lo is ZERO and s.n is w.n:
        I.write(st, s.obj, s.path, new)
    else:
        I.write(st, s.obj, s.path + (('sl', s.lo, s.n),), new)
    st.emit('sort', (s.obj, s.path))
    return ret(st, UNIT)


@model('[T]::swap', 'Vec::swap')
def m_swap(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    c.oblige(st, 'swap index', band(lt(a[1], s.n), lt(a[2], s.n)))
    x = I.read(st, s.obj, s.path + (('i', s.lo + a[1]),))
    y = I.read(st, s.obj, s.path + (('i', s.lo + a[2]),))
    I.write(st, s.obj, s.path + (('i', s.lo + a[1]),), y)
    I.write(st, s.obj, s.path + (('i', s.lo + a[2]),), x)
    return ret(st, UNIT)


@model('[T]::to_vec', '[T]::into_vec', 'Vec::into_boxed_slice', '[T]::to_owned', 'str::to_owned', 'str::to_string', 'String::from_str', 'boxed::into_vec', 'String::into_bytes', 'str::into_string', 'Cow::into_owned', 'String::into_boxed_str', 'str::into_bytes')
def m_to_vec(c, st, a):
    q = seq_of(c.I, st, a[0])
    return ret(st, clone_seq(c.I, st, q))


def clone_seq(I, st, q):
    return Seq(q.segs, q.n, q.ety, q.ov, q.gh)


@model('Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'str::as_bytes', 'String::as_bytes', 'String::as_mut_str', '[T]::as_ref', '[T;N]::as_slice', 'str::as_str', 'Vec::as_ref')
def m_as_slice(c, st, a):
    s = seq_at(c.I, st, a[0])
    if 'bytes' in c.cn:
        text_bytes(c.I, st, s)
    return ret(st, Slice(s.obj, s.path, s.lo, s.n, 'bytes' not in c.cn.split('::')[1] and (s.st or 'str' in c.cn.split('::')[1].lower()), s.mut))


@model('[T]::as_ptr', '[T]::as_mut_ptr', 'Vec::as_ptr', 'Vec::as_mut_ptr')
def m_as_ptr(c, st, a):
    s = seq_at(c.I, st, a[0])
    return ret(st, Agg(('rawptr',), 0, (Slice(s.obj, s.path, s.lo, s.n, False, c.cn.endswith('mut_ptr')), ZERO, c.I.tick)))


def ptr_of(v):
    if v.__class__ is Agg and v.tag == ('rawptr',):
        return v.f
    return None


def ptr_move(sign, unsafe_ob=True):
    def f(c, st, a):
        p = ptr_of(a[0])
        if p is None or a[1].__class__ is not Lin:
            return None
        off = p[1] + a[1] * sign
        c.I.oblige(st, c.fr, c.b, 'pointer in bounds', band(leq(0, off), leq(off, p[0].n)))
        return ret(st, Agg(('rawptr',), 0, (p[0], off, p[2])))
    return f


for _p in ('*const T', '*mut T', 'const_ptr', 'mut_ptr', 'T'):
    for _n, _s in (('add', 1), ('sub', -1), ('offset', 1), ('wrapping_add', 1)):
        MODELS['%s::%s' % (_p, _n)] = ptr_move(_s)
    MODELS['%s::cast' % _p] = lambda c, st, a: ret(st, a[0])
    MODELS['%s::cast_const' % _p] = lambda c, st, a: ret(st, a[0])
    MODELS['%s::cast_mut' % _p] = lambda c, st, a: ret(st, a[0])


@model('ptr::copy', 'ptr::copy_nonoverlapping')
def m_ptr_copy(c, st, a):
    I = c.I
    sp, dp = ptr_of(a[0]), ptr_of(a[1])
    n = a[2]
    if sp is None or dp is None:
        I.oblige(st, c.fr, c.b, 'raw copy of unknown pointers', False)
        return ret(st, UNIT)
    I.alive(st, c.fr, a[0], c.b)
    I.alive(st, c.fr, a[1], c.b)
    I.oblige(st, c.fr, c.b, 'copy source in bounds', band(leq(0, sp[1]), leq(sp[1] + n, sp[0].n)))
    I.oblige(st, c.fr, c.b, 'copy destination in bounds', band(leq(0, dp[1]), leq(dp[1] + n, dp[0].n)))
    if st.facts.dead:
        return []
    if c.cn.endswith('nonoverlapping') and sp[0].obj == dp[0].obj and sp[0].path == dp[0].path:
        d = bor(leq(sp[1] + n, dp[1]), leq(dp[1] + n, sp[1]))
        I.oblige(st, c.fr, c.b, 'copy_nonoverlapping overlap', d)
    src = I.slice_seq(st, Slice(sp[0].obj, sp[0].path, sp[0].lo + sp[1], n))
    I.write(st, dp[0].obj, dp[0].path + (('sl', dp[0].lo + dp[1], n),), Seq(src.segs, n, src.ety, src.ov))
    return ret(st, UNIT)


@model('ptr::write_bytes')
def m_write_bytes(c, st, a):
    I = c.I
    dp = ptr_of(a[0])
    if dp is None:
        I.oblige(st, c.fr, c.b, 'raw write to unknown pointer', False)
        return ret(st, UNIT)
    I.alive(st, c.fr, a[0], c.b)
    I.oblige(st, c.fr, c.b, 'write_bytes in bounds', band(leq(0, dp[1]), leq(dp[1] + a[2], dp[0].n)))
    I.write(st, dp[0].obj, dp[0].path + (('sl', dp[0].lo + dp[1], a[2]),), Seq((('r', a[1], a[2]),), a[2], U8))
    return ret(st, UNIT)


@model('[T]::get', 'Vec::get', 'str::get', '[T]::get_mut', 'Vec::get_mut', 'VecDeque::get')
def m_get(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    mut = c.cn.endswith('mut')
    ix = a[1]
    outs = []
    if ix.__class__ is Lin:
        for s2, inb in I.branch(st, lt(ix, s.n)):
            outs.append((s2, some(elem_ref(I, s2, s, ix, mut)) if inb else none()))
        return outs
    lo, hi = range_bounds(I, st, ix, s.n)
    if lo is None:
        return None
    for s2, inb in I.branch(st, band(leq(lo, hi), leq(hi, s.n))):
        if not inb:
            outs.append((s2, none()))
            continue
        if s.st and not (boundary(I, s2, s, lo) is True and boundary(I, s2, s, hi) is True):
            s3 = s2.copy()
            outs.append((s3, none()))
        outs.append((s2, some(Slice(s.obj, s.path, s.lo + lo, hi - lo, s.st, mut))))
    return outs


@model('[T]::first', '[T]::last', 'Vec::first', 'Vec::last', '[T]::first_mut', '[T]::last_mut')
def m_first(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    outs = []
    for s2, ne in I.branch(st, lt(0, s.n)):
        ix = ZERO if 'first' in c.cn else s.n - 1
        outs.append((s2, some(elem_ref(I, s2, s, ix, 'mut' in c.cn)) if ne else none()))
    return outs


@model('[T]::split_first', '[T]::split_last')
def m_split_first(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    outs = []
    for s2, ne in I.branch(st, lt(0, s.n)):
        if not ne:
            outs.append((s2, none()))
        elif 'first' in c.cn:
            outs.append((s2, some(Agg(('tuple',), 0, (elem_ref(I, s2, s, ZERO), Slice(s.obj, s.path, s.lo + 1, s.n - 1, s.st))))))
        else:
            outs.append((s2, some(Agg(('tuple',), 0, (elem_ref(I, s2, s, s.n - 1), Slice(s.obj, s.path, s.lo, s.n - 1, s.st))))))
    return outs


@model('[T]::split_at', '[T]::split_at_mut', 'str::split_at')
def m_split_at(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    if not c.oblige(st, 'split_at index', leq(a[1], s.n)):
        return []
    if s.st:
        c.oblige(st, 'char boundary', boundary(I, st, s, a[1]))
    return ret(st, Agg(('tuple',), 0, (Slice(s.obj, s.path, s.lo, a[1], s.st, s.mut), Slice(s.obj, s.path, s.lo + a[1], s.n - a[1], s.st, s.mut))))


RANGES = {'Range', 'RangeFrom', 'RangeTo', 'RangeInclusive', 'RangeToInclusive', 'RangeFull', 'PRangeIncl'}


def range_bounds(I, st, v, n):
    """(lo, hi) of an index range over something of length n"""
    if v.__class__ is Ref:
        v = I.read(st, v.obj, v.path)
    if v.__class__ is not Agg or v.tag[0] != 'adt':
        return None, None
    k = ADTS[v.tag[1]]['name']
    if k == 'Range':
        return v.f[0], v.f[1]
    if k == 'RangeFrom':
        return v.f[0], n
    if k == 'RangeTo':
        return ZERO, v.f[0]
    if k in ('RangeInclusive', 'PRangeIncl'):
        return v.f[0], v.f[1] + 1
    if k == 'RangeToInclusive':
        return ZERO, v.f[0] + 1
    if k == 'RangeFull':
        return ZERO, n
    return None, None


def boundary(I, st, s, ix):
    """is index ix of the str slice s a character boundary?"""
    F = st.facts
    if ix is ZERO or ix is s.n or F.decide(eq0(ix)) is True or F.decide(eq(ix, s.n)) is True:
        return True
    if st.ghost.get(('bound', s.obj, s.path, s.lo + ix)):
        return True
    if F.decide(lt(ix, s.n)) is True:
        try:
            b = I.read(st, s.obj, s.path + (('i', s.lo + ix),))
            if b.__class__ is Lin and I.byte_mask(b, st) & mask_range(0x80, 0xbf) == 0:
                return True
        except Giveup:
            pass
    if F.decide(lt(0, ix)) is True:
        try:
            b = I.read(st, s.obj, s.path + (('i', s.lo + ix - 1),))
            if b.__class__ is Lin and I.byte_mask(b, st) & mask_range(0x80, 0xff) == 0:
                return True
        except Giveup:
            pass
    if ix.is_const():
        t = I.seqterm(st, I.slice_seq(st, s))
        p = F.pre.get(t)
        if p is not None and len(p) >= ix.c and all(x < 0x80 for x in p[:ix.c]):
            return True
        d = F.strv.get(t)
        if isinstance(d, bytes):
            return True
    return T('boundary', s.obj, s.path, s.lo + ix)


def index_slice(c, st, s, lo, hi, mut=False):
    I = c.I
    if not c.oblige(st, 'slice index order', leq(lo, hi)):
        return []
    if not c.oblige(st, 'slice index end', leq(hi, s.n)):
        return []
    if s.st:
        c.oblige(st, 'char boundary', boundary(I, st, s, lo))
        c.oblige(st, 'char boundary', boundary(I, st, s, hi))
        if st.facts.dead:
            return []
    return ret(st, Slice(s.obj, s.path, s.lo + lo, hi - lo, s.st, mut))


@model('Index::index', 'IndexMut::index_mut', 'SliceIndex::index', '[T]::get_unchecked', '[T]::get_unchecked_mut', 'str::get_unchecked', 'str::get_unchecked_mut')
def m_index(c, st, a):
    I = c.I
    v = a[0]
    if v.__class__ is Ref:
        w = I.read(st, v.obj, v.path)
        if w.__class__ is Map or (w.__class__ is Sym and is_map_ty(w.ty)):
            outs = []
            for s2, r in map_get(c, st, v, a[1]):
                if r is None:
                    c.I.oblige(s2, c.fr, c.b, 'map index', False)
                else:
                    outs.append((s2, r))
            return outs
    s = seq_at(I, st, v)
    mut = c.cn.startswith('IndexMut') or c.cn.endswith('_mut')
    ix = a[1]
    if ix.__class__ is Lin:
        if not c.oblige(st, 'index', lt(ix, s.n)):
            return []
        return ret(st, elem_ref(I, st, s, ix, mut))
    lo, hi = range_bounds(I, st, ix, s.n)
    if lo is None:
        return None
    return index_slice(c, st, s, lo, hi, mut)


@model('[T]::copy_from_slice', '[T]::clone_from_slice')
def m_copy_from(c, st, a):
    I = c.I
    d, s = seq_at(I, st, a[0]), seq_at(I, st, a[1])
    if not c.oblige(st, 'copy_from_slice length', eq(d.n, s.n)):
        return []
    q = I.slice_seq(st, s)
    n = d.n
    I.write(st, d.obj, d.path + (('sl', d.lo, n),), Seq(q.segs, n, q.ety, q.ov))
    st.emit('copyto', (d.obj, d.path), d.lo, q)
    return ret(st, UNIT)


@model('[T]::fill')
def m_fill(c, st, a):
    I = c.I
    d = seq_at(I, st, a[0])
    q = I.slice_seq(st, d)
    I.write(st, d.obj, d.path + (('sl', d.lo, d.n),), Seq((('r', a[1], d.n),) if d.n is not ZERO else (), d.n, q.ety))
    return ret(st, UNIT)


@model('[T]::copy_within')
def m_copy_within(c, st, a):
    I = c.I
    d = seq_at(I, st, a[0])
    lo, hi = range_bounds(I, st, a[1], d.n)
    if lo is None:
        return None
    if not c.oblige(st, 'copy_within range', band(leq(lo, hi), leq(hi, d.n))) or not c.oblige(st, 'copy_within destination', leq(a[2] + (hi - lo), d.n)):
        return []
    src = I.slice_seq(st, Slice(d.obj, d.path, d.lo + lo, hi - lo))
    I.write(st, d.obj, d.path + (('sl', d.lo + a[2], hi - lo),), Seq(src.segs, hi - lo, src.ety, src.ov))
    return ret(st, UNIT)


@model('Vec::extend_from_slice', 'String::push_str', 'Vec::append')
def m_extend_slice(c, st, a):
    I = c.I
    r, q = vec_ref(I, st, a[0])
    x = seq_of(I, st, a[1])
    wr(I, st, r, I.seq_cat(st, q, x))
    st.emit('extend', (r.obj, r.path), x)
    if c.cn.endswith('append'):
        r2, q2 = vec_ref(I, st, a[1])
        wr(I, st, r2, Seq((), ZERO, q2.ety))
    return ret(st, UNIT)


@model('String::push')
def m_spush(c, st, a):
    I = c.I
    r, q = vec_ref(I, st, a[0])
    ch = a[1]
    if ch.__class__ is Ref:
        x = deep(I, st, ch)
        if x.__class__ is Lin:
            ch = x
    if ch.__class__ is not Lin:
        # collected or extended from an iterator of strings
        x = seq_of(I, st, ch)
        wr(I, st, r, I.seq_cat(st, q, x))
        st.emit('extend', (r.obj, r.path), x)
        return ret(st, UNIT)
    st.emit('push', (r.obj, r.path), ch)
    if ch.__class__ is Lin and st.facts.decide(leq(ch, const(127))) is True:
        wr(I, st, r, Seq(norm_push(q.segs, ch, st), q.n + 1, U8, q.ov))
        return ret(st, UNIT)
    outs = []
    for s2, asc in I.branch(st, leq(ch, const(127))):
        if asc:
            wr(I, s2, r, Seq(norm_push(q.segs, ch, s2), q.n + 1, U8, q.ov))
        else:
            b = T('utf8', ch)
            w = T('len', b, ty=LEN)
            s2.facts._set_iv(w, 2, 4)
            s2.facts.add_quant((b, ZERO, atom(w), mask_range(128, 255)))
            wr(I, s2, r, Seq(q.segs + (('s', b, ZERO, atom(w)),), q.n + atom(w), U8, q.ov))
        outs.append((s2, UNIT))
    return outs


@model('[T]::contains')
def m_contains(c, st, a):
    I = c.I
    q = seq_of(I, st, a[0])
    x = a[1]
    xv = I.deref(st, x) if x.__class__ is Ref else x
    if xv.__class__ is Lin and not q.ov and all(g[0] in ('e', 'c') for g in q.segs):
        els = [g[1] for g in I.seq_explode(q)]
        x1 = xv.single() if q.ety == U8 and not xv.is_const() else None
        if x1 is not None and x1.ty == U8 and all(e.__class__ is Lin and e.is_const() for e in els):
            m = 0
            for e in els:
                m |= 1 << e.c
            return ret(st, T('inmask', x1, m))
        r = False
        for e in els:
            r = bor(r, eq(e, xv))
        return ret(st, r)
    return ret(st, T('contains', I.seqterm(st, q), I.vterm(st, xv), ty=('bool',)))


@model('[T]::starts_with', '[T]::ends_with', 'str::starts_with', 'str::ends_with')
def m_starts(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    q = I.slice_seq(st, s)
    p = a[1]
    if p.__class__ is Lin:
        # a character pattern
        if p.is_const() and p.c < 128:
            outs = []
            for s2, ne in I.branch(st, lt(0, q.n)):
                if not ne:
                    outs.append((s2, False))
                else:
                    b = I.seq_get(s2, q, ZERO if 'starts' in c.cn else q.n - 1)
                    outs.append((s2, eq(b, p)))
            return outs
        return None
    if p.__class__ in (Ref, Slice):
        pq = seq_of(I, st, p)
        if pq.n.is_const() and all(g[0] in ('c', 'e') for g in pq.segs):
            n = pq.n.c
            if n == 0:
                return ret(st, True)
            outs = []
            for s2, le_ in I.branch(st, leq(pq.n, q.n)):
                if not le_:
                    outs.append((s2, False))
                    continue
                r = True
                off = ZERO if 'starts' in c.cn else q.n - n
                for k, g in enumerate(I.seq_explode(pq)):
                    r = band(r, eq(I.seq_get(s2, q, off + k), g[1]))
                outs.append((s2, r))
            return outs
        return ret(st, T('startsw', I.seqterm(st, q), I.seqterm(st, pq), c.cn, ty=('bool',)))
    return None


def strip(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    pre = 'prefix' in c.cn
    r = MODELS['str::starts_with' if pre else 'str::ends_with']
    c2 = type(c)(c.I, c.fr, c.b, c.f, 'str::starts_with' if pre else 'str::ends_with', c.targs, c.selfty, c.dty, c.t)
    x = r(c2, st, a)
    if x is None:
        return None
    outs = []
    for s2, cond in x:
        for s3, yes in I.branch(s2, cond):
            if yes:
                p = a[1]
                n = ONE if p.__class__ is Lin else seq_of(I, s3, p).n
                outs.append((s3, some(Slice(s.obj, s.path, s.lo + n if pre else s.lo, s.n - n, s.st))))
            else:
                outs.append((s3, none()))
    return outs


MODELS['str::strip_prefix'] = strip
MODELS['str::strip_suffix'] = strip
MODELS['[T]::strip_prefix'] = strip
MODELS['[T]::strip_suffix'] = strip


@model('[T]::concat', 'str::concat', '[T]::join', 'str::repeat', '[T]::repeat', 'str::replace', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', '[T]::to_ascii_lowercase')
def m_pure_text(c, st, a):
    I = c.I
    ts = tuple(I.vterm(st, x) for x in a)
    t = T(c.cn, *ts)
    n = atom(T('len', t, ty=LEN))
    if c.cn.endswith('repeat'):
        reserved(c, st, n)
    if 'ascii' in c.cn:
        n = seq_of(I, st, a[0]).n
    return ret(st, Seq((('s', T('seq', t), ZERO, n),), n, U8))


# -- searching in text
def find_in(c, st, a, back):
    """str::find / rfind -> Option<usize>"""
    I = c.I
    s = seq_at(I, st, a[0])
    q = I.slice_seq(st, s)
    p = a[1]
    outs = []
    if p.__class__ is Lin and p.is_const() and p.c < 128:
        fn = I.prog.prelude['str__rfind_byte' if back else 'str__find_byte']
        return I.call_fn(st, fn, [a[0], p], {}, (c.b, 'find'), c.fr, None, prel=True)
    w = I.read(st, p.obj, p.path) if p.__class__ is Ref else p
    if w.__class__ is FnV or w.__class__ is Agg and w.tag[0] == 'closure':
        fn = I.prog.prelude['str__rfind_fn' if back else 'str__find_fn']
        return I.call_fn(st, fn, [a[0], p], {}, (c.b, 'find'), c.fr, None, prel=True)
    plen = None
    if p.__class__ is Seq or p.__class__ in (Ref, Slice) and not (p.__class__ is Slice and p.st):
        # any of some characters
        try:
            pq = seq_of(I, st, p)
            el = [g[1] for g in I.seq_explode(pq)] if all(g[0] in ('e', 'c') for g in pq.segs) and pq.n.is_const() and pq.n.c <= 4 else []
        except Giveup:
            el = []
        if el and pq.ety != U8 and all(x.__class__ is Lin and x.is_const() and x.c < 128 for x in el):
            el = (el + [el[-1]] * 4)[:4]
            fn = I.prog.prelude['str__rfind_set' if back else 'str__find_set']
            return I.call_fn(st, fn, [a[0], *el], {}, (c.b, 'find'), c.fr, None, prel=True)
    if p.__class__ in (Ref, Slice):
        try:
            pq = seq_of(I, st, p)
            plen = pq.n
            if plen.is_const() and plen.c == 1:
                return find_in(c, st, [a[0], I.seq_get(st, pq, ZERO)], back)
        except Giveup:
            return None
    # a pattern found somewhere
    s2 = st.copy()
    t = fresh('find', USIZE)
    if s2.facts.add_le(atom(t) + (plen if plen is not None else ONE) - q.n):
        s2.ghost[('bound', s.obj, s.path, s.lo + atom(t))] = True
        if plen is not None:
            s2.ghost[('bound', s.obj, s.path, s.lo + atom(t) + plen)] = True
        outs.append((s2, some(atom(t))))
    outs.append((st, none()))
    if I.first_branch is None:
        I.first_branch = 'open'
    return outs


MODELS['str::find'] = lambda c, st, a: find_in(c, st, a, False)
MODELS['str::rfind'] = lambda c, st, a: find_in(c, st, a, True)


@model('str::contains')
def m_str_contains(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    q = I.slice_seq(st, s)
    p = a[1]
    if p.__class__ is Lin or p.__class__ in (Ref, Slice):
        try:
            pt = p if p.__class__ is Lin else seq_of(I, st, p)
            if pt.__class__ is Seq and not all(x[0] in ('c', 'e') for x in pt.segs):
                return ret(st, T('strcontains', I.seqterm(st, q), I.seqterm(st, pt), ty=('bool',)))
            if pt.__class__ is Seq and pt.n is ONE and pt.ety == U8:
                pt = I.seq_get(st, pt, ZERO)
            if pt.__class__ is Seq:
                return ret(st, T('strcontains', I.seqterm(st, q), I.seqterm(st, pt), ty=('bool',)))
            return ret(st, T('strcontains', I.seqterm(st, q), pt, ty=('bool',)))
        except Giveup:
            return None
    if p.__class__ is Seq and all(g[0] in ('e', 'c') for g in p.segs):
        r = False
        for g in I.seq_explode(p):
            r = bor(r, T('strcontains', I.seqterm(st, q), g[1], ty=('bool',)))
        return ret(st, r)
    return None


@model('str::split_once', 'str::rsplit_once')
def m_split_once(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    if a[1].__class__ is not Lin:
        try:
            plen = seq_of(I, st, a[1]).n
        except Giveup:
            return None
    else:
        plen = ONE
    r = find_in(c, st, a, c.cn.endswith('rsplit_once'))
    if r is None:
        return None
    outs = []
    for s1, v in r:
        for s2, k, w in I.variants_of(s1, v):
            if k == 0:
                outs.append((s2, none()))
                continue
            i = w.f[0]
            outs.append((s2, some(Agg(('tuple',), 0, (Slice(s.obj, s.path, s.lo, i, True), Slice(s.obj, s.path, s.lo + i + plen, s.n - i - plen, True))))))
    return outs


@model('str::is_char_boundary')
def m_is_cb(c, st, a):
    s = seq_at(c.I, st, a[0])
    outs = []
    for s2, le_ in c.I.branch(st, leq(a[1], s.n)):
        outs.append((s2, boundary(c.I, s2, s, a[1]) if le_ else False))
    return outs


@model('str::is_ascii', '[T]::is_ascii')
def m_is_ascii(c, st, a):
    q = seq_of(c.I, st, a[0])
    return ret(st, T('isascii', c.I.seqterm(st, q), ty=('bool',)))


# ------------------------------------------------------------------ text conversions
@model('str::from_utf8', 'String::from_utf8', 'from_utf8')
def m_from_utf8(c, st, a):
    I = c.I
    q = seq_of(I, st, a[0])
    owned = c.cn == 'String::from_utf8'
    isdef = utf8_known(I, st, q)
    outs = []
    if owned:
        good = q
    else:
        s = seq_at(I, st, a[0])
        good = Slice(s.obj, s.path, s.lo, s.n, True)
    cond = T('utf8', I.seqterm(st, q), ty=('bool',))
    if isdef:
        return ret(st, ok(good))
    for s2, y in I.branch(st, cond):
        if y:
            outs.append((s2, ok(good)))
        else:
            et = c.dty[2][1] if c.dty and c.dty[0] == 'adt' and len(c.dty[2]) > 1 else ('other', None)
            e = mkval(T('utf8err', I.seqterm(st, q)), et)
            outs.append((s2, err(e)))
    return outs


def text_bytes(I, st, s):
    """the bytes of s are text"""
    try:
        q = I.slice_seq(st, s)
    except Giveup:
        return
    if len(q.segs) == 1 and q.segs[0][0] == 's' and not q.ov:
        g = q.segs[0]
        st.facts.misc.setdefault(('text', g[1]), (g[2], g[3]))


def text_part(I, st, g):
    """is a part of a sequence cut from a text between characters?"""
    F = st.facts
    d = F.misc.get(('text', g[1]))
    if d is None:
        return False
    lo, hi = g[2], g[2] + g[3]
    t0, t1 = d[0], d[0] + d[1]
    if F.decide(leq(t0, lo)) is not True or F.decide(leq(hi, t1)) is not True:
        return False

    def between(ix):
        if F.decide(eq(ix, t0)) is True or F.decide(eq(ix, t1)) is True:
            return True
        s = st.copy()
        for j, part in ((ix, mask_range(0x80, 0xbf)), (ix - 1, mask_range(0x80, 0xff))):
            if F.decide(leq(t0, j)) is True and F.decide(lt(j, t1)) is True:
                b = I.elem_at(s, ('s', g[1], ZERO, t1), j, U8)
                if b.__class__ is Lin and I.byte_mask(b, s) & part == 0:
                    return True
                # the same byte under another name
                for t, m in F.mask.items():
                    if t.op == 'elem' and t.args[0] is g[1] and m & part == 0 and F.prove_eq(t.args[1] - j):
                        return True
        return False
    return between(lo) and between(hi)


def utf8_known(I, st, q):
    """are these bytes certainly well-formed text?"""
    if len(q.segs) == 1 and q.segs[0][0] == 's' and not q.ov and text_part(I, st, q.segs[0]):
        return True
    m = I.seq_mask(q, st)
    if m is not None and m & mask_range(128, 255) == 0:
        return True
    if q.ov:
        return False
    for g in q.segs:
        if g[0] == 's' and g[1].op == 'utf8':
            continue
        m = I.seq_mask(Seq((g,), seglen(g), U8), st)
        if m is None or m & mask_range(128, 255):
            return False
    return True


@model('String::from_utf8_lossy')
def m_lossy(c, st, a):
    I = c.I
    q = seq_of(I, st, a[0])
    if utf8_known(I, st, q):
        return ret(st, Agg(('cow',), 0, (q,)))
    t = T('lossy', I.seqterm(st, q))
    n = atom(T('len', t, ty=LEN))
    return ret(st, Agg(('cow',), 0, (Seq((('s', T('seq', t), ZERO, n),), n, U8),)))


@model('str::from_utf8_unchecked')
def m_from_unchecked(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    q = I.slice_seq(st, s)
    I.oblige(st, c.fr, c.b, 'from_utf8_unchecked', utf8_known(I, st, q))
    return ret(st, Slice(s.obj, s.path, s.lo, s.n, True))


def m_radix(c, st, a):
    return m_parse(c, st, a[:1]) if a[1] is const(10) or a[1] == const(10) else None


@model('str::parse', 'FromStr::from_str', 'Url::parse')
def m_parse(c, st, a):
    I = c.I
    d = c.dty
    if not (d and d[0] == 'adt' and d[2]):
        return None
    ty = d[2][0]
    ety = d[2][1] if len(d[2]) > 1 else ('other', None)
    if ty[0] == 'int':
        s = seq_at(I, st, a[0])
        q = I.slice_seq(st, s)
        qt = I.seqterm(st, q)
        s2 = st.copy()
        t = T('parse', qt, ty=ty)
        outs = []
        # success needs at least one character; a leading digit means a non-negative value
        if s2.facts.add_le(ONE - q.n):
            b = I.seq_get(s2, q, ZERO)
            if b.__class__ is Lin and not s2.facts.dead:
                m = I.byte_mask(b, s2)
                if m & (1 << ord('-')) == 0:
                    s2.facts._set_iv(t, 0, None)
                s2.facts.assume(T('inmask', b.single(), mask_range(48, 57) | (1 << 43) | (1 << 45)) if b.single() else True)
            if s2.facts.assume(T('parses', qt, ty, ty=('bool',))) and not s2.facts.dead:
                outs.append((s2, ok(atom(t))))
        if st.facts.assume(bnot(T('parses', qt, ty, ty=('bool',)))):
            outs.append((st, err(mkval(T('parseerr', qt), ety))))
        if I.first_branch is None:
            I.first_branch = 'open'
        return outs
    fn = None
    for f in I.prog.impls.get(('FromStr', 'from_str'), ()):
        env = {}
        if unify(f.selfty, ty, env):
            return I.call_fn(st, f, [a[0]], env, (c.b, 'parse'), c.fr, d)
    q = seq_of(I, st, a[0])
    qt = I.seqterm(st, q)
    outs = []
    s2 = st.copy()
    if s2.facts.assume(T('parses', qt, ty, ty=('bool',))):
        outs.append((s2, ok(mkval(T('parsed', qt, ty), ty))))
    if st.facts.assume(bnot(T('parses', qt, ty, ty=('bool',)))):
        outs.append((st, err(mkval(T('parseerr', qt, ty), ety))))
    return outs


@model('Url::scheme', 'Url::as_str', 'Url::path')
def m_url_part(c, st, a):
    """a text that the URL determines"""
    I = c.I
    t = T('call', c.cn, I.vterm(st, I.deref(st, a[0])))
    o = ('D', t)
    n = atom(T('len', t, ty=LEN))
    if o not in st.objs:
        st.objs[o] = Seq((('s', T('seq', t), ZERO, n),), n, U8)
    return ret(st, Slice(o, (), ZERO, n, True))


@model('Url::query_pairs')
def m_query_pairs(c, st, a):
    """the pairs of the query are a finite list that the URL determines"""
    I = c.I
    cow = [k for k, i in ADTS.items() if i['name'] == 'Cow']
    t = T('call', c.cn, I.vterm(st, I.deref(st, a[0])))
    n = atom(T('len', t, ty=LEN))
    ct = ('adt', cow[0], (('str',),))
    return prel(c, st, '__viter', [Seq((('s', T('seq', t), ZERO, n),), n, ('tuple', (ct, ct)))])


# ------------------------------------------------------------------ formatting
def intfmt(I, st, v, spec):
    t = T('fmt', spec, v)
    n = T('len', t, ty=LEN)
    lo, hi = 1, 40
    if v.__class__ is Lin and spec == 'display':
        u, l = st.facts.upper(v), st.facts.lower(v)
        if u is not None and l is not None:
            hi = max(len(str(u)), len(str(l)))
    st.facts._set_iv(n, lo, hi)
    if spec == 'display':
        m = mask_range(48, 57)
        if not (v.__class__ is Lin and st.facts.decide(leq(0, v)) is True):
            m |= 1 << 45
        st.facts.add_quant((T('seq', t), ZERO, atom(n), m))
    elif spec in ('lower_hex', 'upper_hex'):
        m = mask_range(48, 57) | (mask_range(97, 102) if spec == 'lower_hex' else mask_range(65, 70))
        st.facts.add_quant((T('seq', t), ZERO, atom(n), m))
    return Seq((('s', T('seq', t), ZERO, atom(n)),), atom(n), U8)


def fmt_value(c, st, v, spec, opts=None):
    """text produced by formatting v -> Seq"""
    I = c.I
    for _ in range(8):
        if v.__class__ is Ref:
            w = I.read(st, v.obj, v.path)
            if w.__class__ is Seq or (w.__class__ is Sym and is_seq_ty(w.ty)):
                break
            v = w
            continue
        break
    if v.__class__ is Lin and opts is None:
        return intfmt(I, st, v, spec)
    if v.__class__ is Lin:
        if spec in ('lower_hex', 'upper_hex') and opts == ('0', 2) and st.facts.decide(band(leq(0, v), leq(v, const(255)))) is True:
            al = b'0123456789abcdef' if spec == 'lower_hex' else b'0123456789ABCDEF'
            return Seq((('e', I.elem_at(st, ('c', al), div(v, 16), U8)), ('e', I.elem_at(st, ('c', al), rem(v, 16), U8))), const(2), U8)
        return intfmt(I, st, v, (spec, opts))
    if spec == 'display' and opts is None:
        if v.__class__ in (Slice,) or v.__class__ is Seq or v.__class__ is Ref or (v.__class__ is Agg and v.tag[0] == 'cow') or (v.__class__ is Sym and (is_seq_ty(v.ty) or mir.tname(v.ty) == 'Cow')):
            try:
                return seq_of(I, st, v)
            except Giveup:
                pass
    t = T('fmt', spec, opts, I.vterm(st, v))
    n = atom(T('len', t, ty=LEN))
    return Seq((('s', T('seq', t), ZERO, n),), n, U8)


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_octal', 'Argument::new_binary', 'Argument::new_lower_exp', 'Argument::new_pointer')
def m_fmtarg(c, st, a):
    return ret(st, Agg(('fmtarg', c.cn.split('new_')[-1]), 0, (a[0],)))


@model('Argument::from_usize')
def m_fmtwidth(c, st, a):
    v = a[0]
    while v.__class__ is Ref:
        v = c.I.read(st, v.obj, v.path)
    if v.__class__ is Lin:
        c.oblige(st, 'format width', leq(v, const(0xffff)))
    return ret(st, Agg(('fmtarg', 'from_usize'), 0, (a[0],)))


@model('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def m_args_str(c, st, a):
    return ret(st, Agg(('fmtargs',), 0, (seq_of(c.I, st, a[0]),)))


@model('Arguments::new')
def m_args_new(c, st, a):
    I = c.I
    tpl = seq_of(I, st, a[0])
    if not all(g[0] == 'c' for g in tpl.segs):
        return None
    data = b''.join(bytes(g[1]) for g in tpl.segs)
    argq = seq_of(I, st, a[1])
    args = [g[1] for g in I.seq_explode(argq)]
    out = Seq((), ZERO, U8)
    i = 0
    nxt = 0
    while i < len(data):
        b = data[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            lit = data[i:i + b]
            i += b
            out = I.seq_cat(st, out, Seq((('c', lit),), const(len(lit)), U8))
            continue
        if b == 0x80:
            n = data[i] | data[i + 1] << 8
            i += 2
            lit = data[i:i + n]
            i += n
            out = I.seq_cat(st, out, Seq((('c', lit),), const(len(lit)), U8))
            continue
        opts = None
        fl = wd = pr = None
        if b & 1:
            fl = int.from_bytes(data[i:i + 4], 'little')
            i += 4
        if b & 2:
            wd = data[i] | data[i + 1] << 8
            i += 2
        if b & 4:
            pr = data[i] | data[i + 1] << 8
            i += 2
        if b & 8:
            nxt = data[i] | data[i + 1] << 8
            i += 2
        if fl is not None or wd is not None or pr is not None:
            zero = fl is not None and (fl >> 24) & 1
            opts = ('0' if zero else fl, wd) if pr is None else (fl, wd, pr)
            if b & 0x30:
                opts = ('indirect', fl, wd, pr)
        arg = args[nxt]
        nxt += 1
        if arg.__class__ is not Agg or arg.tag[0] != 'fmtarg':
            return None
        out = I.seq_cat(st, out, fmt_value(c, st, arg.f[0], arg.tag[1], opts))
    return ret(st, Agg(('fmtargs',), 0, (out,)))


def args_seq(I, st, v):
    if v.__class__ is Agg and v.tag == ('fmtargs',):
        return v.f[0]
    t = fresh('fmtargs')
    n = atom(T('len', t, ty=LEN))
    return Seq((('s', T('seq', t), ZERO, n),), n, U8)


@model('fmt::format', 'format::format', 'alloc::format')
def m_format(c, st, a):
    return ret(st, args_seq(c.I, st, a[0]))


@model('hint::must_use', 'hint::black_box', 'convert::identity', 'mem::forget_')
def m_identity(c, st, a):
    return ret(st, a[0])


@model('ToString::to_string')
def m_to_string(c, st, a):
    I = c.I
    v = a[0]
    hn = I.head_name(st, v)
    if c.selfty is not None:
        # a Display implementation of the workspace
        for f in I.prog.impls.get(('Display', 'fmt'), ()):
            if unify(f.selfty, c.selfty, {}):
                q = fmt_value(c, st, v, 'display')
                return ret(st, q)
    return ret(st, fmt_value(c, st, v, 'display'))


def write_target(I, st, v):
    """the local byte vector a writer designates, or None for an unknown writer"""
    for _ in range(6):
        if v.__class__ is Ref:
            w = I.read(st, v.obj, v.path)
            if w.__class__ is Ref:
                v = w
                continue
            if w.__class__ is Seq or (w.__class__ is Sym and is_seq_ty(w.ty)):
                return v
        return None
    return None


def do_write(c, st, w, q):
    I = c.I
    t = write_target(I, st, w)
    okv = ok(UNIT)
    cw = vcursor_at(I, st, w)
    if cw is not None:
        return cursor_write(c, st, cw, q)
    if t is not None:
        old = I.expand(st, I.read(st, t.obj, t.path))
        wr(I, st, t, I.seq_cat(st, old, q))
        st.emit('write', (t.obj, t.path), q)
        return ret(st, okv)
    if w.__class__ is Slice:
        return None
    s2 = st.copy()
    s2.emit('write', loc_of(I, st, w), q)
    st.emit('writefail', loc_of(I, st, w), q)
    et = c.dty[2][1] if c.dty and c.dty[0] == 'adt' and len(c.dty[2]) > 1 else ('other', None)
    if I.first_branch is None:
        I.first_branch = 'open'
    return [(s2, okv), (st, err(mkval(fresh('ioerr'), et)))]


def loc_of(I, st, v):
    while v.__class__ is Ref:
        w = I.read(st, v.obj, v.path)
        if w.__class__ is Ref:
            v = w
            continue
        return (v.obj, v.path)
    return v


@model('Write::write_all', 'Write::write_str', 'Formatter::write_str')
def m_write_all(c, st, a):
    return do_write(c, st, a[0], seq_of(c.I, st, a[1]))


@model('Write::write_fmt', 'Formatter::write_fmt')
def m_write_fmt(c, st, a):
    return do_write(c, st, a[0], args_seq(c.I, st, a[1]))


@model('Write::flush')
def m_flush(c, st, a):
    return ret(st, ok(UNIT))


@model('Formatter::debug_struct', 'Formatter::debug_list', 'Formatter::debug_tuple', 'Formatter::debug_map', 'DebugStruct::field', 'DebugList::entries', 'DebugStruct::finish', 'DebugList::finish')
def m_dbg(c, st, a):
    return None


# ------------------------------------------------------------------ reading
@model('Read::read_exact')
def m_read_exact(c, st, a):
    I = c.I
    d = seq_at(I, st, a[1])
    r = a[0]
    src = None
    for _ in range(6):
        if r.__class__ is Ref:
            w = I.read(st, r.obj, r.path)
            if w.__class__ is Ref:
                r = w
                continue
            if w.__class__ is Slice:
                src = w
            elif w.__class__ is Agg and w.tag[0] == 'cursor':
                src = w
        break
    et = c.dty[2][1] if c.dty and c.dty[0] == 'adt' and len(c.dty[2]) > 1 else ('other', None)
    outs = []
    if src.__class__ is Slice:
        for s2, enough in I.branch(st, leq(d.n, src.n)):
            if enough:
                q = I.slice_seq(s2, Slice(src.obj, src.path, src.lo, d.n))
                I.write(s2, d.obj, d.path + (('sl', d.lo, d.n),), Seq(q.segs, d.n, U8, q.ov))
                I.write(s2, r.obj, r.path, Slice(src.obj, src.path, src.lo + d.n, src.n - d.n))
                s2.emit('read', (r.obj, r.path), d.n, q)
                outs.append((s2, ok(UNIT)))
            else:
                n = Seq((('s', fresh('seq'), ZERO, d.n),), d.n, U8)
                I.write(s2, d.obj, d.path + (('sl', d.lo, d.n),), n)
                I.write(s2, r.obj, r.path, Slice(src.obj, src.path, src.lo + src.n, ZERO))
                outs.append((s2, err(mkval(fresh('eof'), et))))
        return outs
    if src.__class__ is Agg:
        # Cursor: (slice, position)
        sl, pos = src.f
        for s2, enough in I.branch(st, leq(pos + d.n, sl.n)):
            if enough:
                q = I.slice_seq(s2, Slice(sl.obj, sl.path, sl.lo + pos, d.n))
                I.write(s2, d.obj, d.path + (('sl', d.lo, d.n),), Seq(q.segs, d.n, U8, q.ov))
                I.write(s2, r.obj, r.path, Agg(('cursor',), 0, (sl, pos + d.n)))
                s2.emit('read', (r.obj, r.path), d.n, q)
                outs.append((s2, ok(UNIT)))
            else:
                n = Seq((('s', fresh('seq'), ZERO, d.n),), d.n, U8)
                I.write(s2, d.obj, d.path + (('sl', d.lo, d.n),), n)
                I.write(s2, r.obj, r.path, Agg(('cursor',), 0, (sl, sl.n)))
                outs.append((s2, err(mkval(fresh('eof'), et))))
        return outs
    # an unknown reader: consecutive pieces of its stream
    base, off = reader_pos(st, r)
    q = Seq((('s', base, off, d.n),) if d.n is not ZERO else (), d.n, U8)
    s2 = st.copy()
    I.write(s2, d.obj, d.path + (('sl', d.lo, d.n),), q)
    s2.ghost[('rd', base)] = off + d.n
    s2.emit('read', (r.obj, r.path) if r.__class__ is Ref else r, d.n, q)
    I.write(st, d.obj, d.path + (('sl', d.lo, d.n),), Seq((('s', fresh('seq'), ZERO, d.n),), d.n, U8))
    if I.first_branch is None:
        I.first_branch = 'open'
    return [(s2, ok(UNIT)), (st, err(mkval(fresh('ioerr'), et)))]


def reader_pos(st, r):
    base = T('stream', (r.obj, r.path) if r.__class__ is Ref else r)
    return base, st.ghost.get(('rd', base), ZERO)


def vcursor_at(I, st, v):
    """the location of a cursor over a growable vector"""
    for _ in range(6):
        if v.__class__ is Ref:
            w = I.read(st, v.obj, v.path)
            if w.__class__ is Ref:
                v = w
                continue
            if w.__class__ is Agg and w.tag[0] == 'vcursor':
                return v
        return None
    return None


def cursor_write(c, st, r, q):
    I = c.I
    cur = I.read(st, r.obj, r.path)
    inner, pos = cur.f
    old = inner if inner.__class__ is Seq else I.expand(st, I.deref(st, inner))
    F = st.facts
    if F.prove_eq(pos - old.n):
        new = I.seq_cat(st, old, q)
    elif F.prove_le(pos + q.n - old.n):
        pre, post = I.seq_sub(st, old, ZERO, pos), I.seq_sub(st, old, pos + q.n, old.n - pos - q.n)
        new = Seq(norm_segs(pre.segs + q.segs + post.segs), old.n, old.ety, ())
    else:
        reserved(c, st, pos + q.n)
        b = fresh('written')
        n = T('len', b, ty=LEN)
        F.add_le(old.n - atom(n))
        F.add_le(pos + q.n - atom(n))
        new = Seq((('s', b, ZERO, atom(n)),), atom(n), old.ety)
    if inner.__class__ is Seq:
        I.write(st, r.obj, r.path, Agg(('vcursor',), 0, (new, pos + q.n)))
    else:
        I.write(st, inner.obj, inner.path, new)
        I.write(st, r.obj, r.path, Agg(('vcursor',), 0, (inner, pos + q.n)))
        st.emit('write', (inner.obj, inner.path), q)
    return ret(st, ok(UNIT))


@model('Cursor::into_inner')
def m_cursor_into(c, st, a):
    v = a[0]
    if v.__class__ is Agg and v.tag[0] in ('vcursor', 'cursor'):
        return ret(st, v.f[0])
    return None


@model('Cursor::position')
def m_cursor_pos(c, st, a):
    v = a[0]
    w = c.I.read(st, v.obj, v.path) if v.__class__ is Ref else v
    if w.__class__ is Agg and w.tag[0] in ('vcursor', 'cursor'):
        return ret(st, w.f[1])
    return None


@model('Cursor::set_position')
def m_cursor_set(c, st, a):
    v = a[0]
    w = c.I.read(st, v.obj, v.path) if v.__class__ is Ref else v
    if w.__class__ is Agg and w.tag[0] in ('vcursor', 'cursor'):
        c.I.write(st, v.obj, v.path, Agg(w.tag, 0, (w.f[0], a[1])))
        return ret(st, UNIT)
    return None


@model('Cursor::new')
def m_cursor(c, st, a):
    x = a[0]
    if x.__class__ is Seq:
        return ret(st, Agg(('vcursor',), 0, (x, ZERO)))
    ty = c.targs[0] if c.targs else None
    if x.__class__ is Ref and ty is not None and ty[0] == 'ref' and ty[1] and mir.tname(ty[2]) == 'Vec':
        return ret(st, Agg(('vcursor',), 0, (x, ZERO)))
    try:
        s = seq_at(c.I, st, a[0])
    except Giveup:
        return None
    return ret(st, Agg(('cursor',), 0, (s, ZERO)))


# ------------------------------------------------------------------ maps
def keyval(I, st, k):
    """canonical form of a map key"""
    for _ in range(5):
        if k.__class__ is Ref:
            w = I.read(st, k.obj, k.path)
            if w.__class__ is Seq or (w.__class__ is Sym and is_seq_ty(w.ty)):
                break
            k = w
            continue
        break
    try:
        q = seq_of(I, st, k)
        if q.ov == () and all(g[0] == 'c' for g in q.segs):
            return b''.join(bytes(g[1]) for g in q.segs)
        t = I.seqterm(st, q)
        d = st.facts.strv.get(t)
        if isinstance(d, bytes):
            return d
        return t
    except Giveup:
        pass
    if k.__class__ is Sym:
        w = I.expand(st, k)
        if w.__class__ is Agg:
            return I.vterm(st, w)
    return I.vterm(st, k)


def key_eq(k1, k2):
    if k1 == k2:
        return True
    if isinstance(k1, bytes) and isinstance(k2, bytes):
        return False
    if isinstance(k1, bytes) or isinstance(k2, bytes):
        c, t = (k1, k2) if isinstance(k1, bytes) else (k2, k1)
        return T('streq', t, c, ty=('bool',))
    if isinstance(k1, tuple) or isinstance(k2, tuple):
        return None
    if k1.__class__ is Lin and k2.__class__ is Lin:
        return eq(k1, k2)
    if k1.__class__ is Term and k2.__class__ is Term:
        a, b = (k1, k2) if k1.id < k2.id else (k2, k1)
        return T('keyeq', a, b, ty=('bool',))
    return T('keyeq', k1, k2, ty=('bool',))


def key_of_map(I, st, m, key):
    """the key was obtained by iterating over this map: the fact that it is present"""
    if key.__class__ is not Term or m.base.op != 'map':
        return None
    for x in subterms(key):
        if x.op == 'mkeyi' and x.args[0] is m.base:
            if x is not key and I.vterm(st, I.expand(st, mkval(x, m.kty))) is not key:
                continue
            i, n = x.args[1], atom(T('len', m.base.args[0], ty=LEN))
            if st.facts.decide(band(leq(ZERO, i), lt(i, n))) is True:
                return T('mhas', m.base, key, ty=('bool',))
    return None


def subterms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.__class__ is Lin:
            todo += [a for a, _ in x.t]
        elif x.__class__ is tuple:
            todo += list(x)
        elif x.__class__ is Term and x not in seen:
            seen.add(x)
            out.append(x)
            todo += list(x.args)
    return out


def lookup(I, st, m, key):
    """-> [(state, presence formula or bool, matching entry key or None)]"""
    outs = []
    cur = st
    known = key_of_map(I, st, m, key)
    if known is not None:
        # a key the map was seen to hold
        if not st.facts.assume(known):
            return []
    for k2, p, v in reversed(m.ent):
        if isinstance(k2, tuple) and k2 and k2[0] == 'mi':
            raise Giveup('lookup after a write through an iterator')
        if k2.__class__ is Term and k2 is not key and key.__class__ is Term:
            h1, h2 = cur.facts.b.get(T('mhas', m.base, key, ty=('bool',))), cur.facts.b.get(T('mhas', m.base, k2, ty=('bool',)))
            if h1 is not None and h2 is not None and h1 is not h2:
                continue
        e = key_eq(key, k2)
        if e is None:
            continue
        nxt = None
        for s2, y in I.branch(cur, e):
            if y:
                outs.append((s2, p, k2, v))
            else:
                nxt = s2
        cur = nxt
        if cur is None:
            return outs
    t = T('mhas', m.base, key, ty=('bool',))
    if m.n is ZERO and not m.ent or cur.facts.decide(eq0(m.n)) is True and not any(p for _, p, _ in m.ent):
        outs.append((cur, False, None, None))
    elif m.base.op == 'fresh' and m.base.args[0] == 'empty':
        outs.append((cur, False, None, None))
    else:
        outs.append((cur, t, None, None))
    return outs


def map_get(c, st, r, k, mut=False):
    """-> [(state, Ref to the value or None)]"""
    I = c.I
    o, p, m = map_at(I, st, r)
    key = keyval(I, st, k)
    outs = []
    for s2, pres, ek, v in lookup(I, st, m, key):
        for s3, y in I.branch(s2, pres):
            if not y:
                outs.append((s3, None))
            else:
                kk = ek if ek is not None else key
                if ek is None:
                    s3.facts.add_le(ONE - m.n) if not m.ent else None
                    # name the entry so that writes through the reference stay precise
                    cur = I.expand(s3, I.read(s3, o, p))
                    if not any(e[0] == kk for e in cur.ent):
                        val = mkval(T('mval', m.base, kk), m.vty)
                        I.write(s3, o, p, Map(cur.base, cur.ent + ((kk, True, val),), cur.n, cur.kty, cur.vty))
                outs.append((s3, Ref(o, p + (('mk', kk),), mut)))
    return outs


@model('BTreeMap::get', 'HashMap::get', 'BTreeMap::get_mut', 'HashMap::get_mut')
def m_map_get(c, st, a):
    mut = c.cn.endswith('mut')
    return [(s, none() if r is None else some(r)) for s, r in map_get(c, st, a[0], a[1], mut)]


@model('BTreeMap::contains_key', 'HashMap::contains_key')
def m_map_has(c, st, a):
    return [(s, r is not None) for s, r in map_get(c, st, a[0], a[1])]


@model('BTreeMap::len', 'HashMap::len')
def m_map_len(c, st, a):
    return ret(st, map_at(c.I, st, a[0])[2].n)


@model('BTreeMap::is_empty', 'HashMap::is_empty')
def m_map_empty(c, st, a):
    return ret(st, eq0(map_at(c.I, st, a[0])[2].n))


@model('BTreeMap::new', 'HashMap::new', 'HashMap::with_capacity')
def m_map_new(c, st, a):
    d = c.dty
    k, v = (d[2][0], d[2][1]) if d and d[0] == 'adt' and len(d[2]) >= 2 else (('other', None), ('other', None))
    if len(c.targs) >= 2:
        k, v = c.targs[0], c.targs[1]
    if len(a) == 1:
        st.emit('alloc', a[0], c.fr.fn.path)
        reserved(c, st, a[0])
    return ret(st, Map(T('fresh', 'empty', 0), (), ZERO, k, v))


def map_insert(c, st, r, k, v):
    """-> [(state, old value or None)]"""
    I = c.I
    o, p, m = map_at(I, st, r)
    key = keyval(I, st, k)
    outs = []
    for s2, pres, ek, old in lookup(I, st, m, key):
        for s3, y in I.branch(s2, pres):
            cur = I.expand(s3, I.read(s3, o, p))
            kk = ek if ek is not None else key
            ov = None
            if y:
                ov = old if ek is not None else mkval(T('mval', m.base, kk), m.vty)
            ent = tuple(e for e in cur.ent if e[0] != kk) + ((kk, True, v),)
            I.write(s3, o, p, Map(cur.base, ent, cur.n if y else cur.n + 1, cur.kty, cur.vty))
            if y:
                s3.facts.add_le(ONE - cur.n)
            s3.emit('minsert', (o, p), kk, v, y, k)
            outs.append((s3, ov))
    return outs


@model('BTreeMap::insert', 'HashMap::insert')
def m_map_insert(c, st, a):
    return [(s, none() if x is None else some(x)) for s, x in map_insert(c, st, a[0], a[1], a[2])]


@model('BTreeMap::remove', 'HashMap::remove')
def m_map_remove(c, st, a):
    I = c.I
    o, p, m = map_at(I, st, a[0])
    key = keyval(I, st, a[1])
    outs = []
    for s2, pres, ek, old in lookup(I, st, m, key):
        for s3, y in I.branch(s2, pres):
            cur = I.expand(s3, I.read(s3, o, p))
            if not y:
                s3.emit('mremove', (o, p), key, False)
                outs.append((s3, none()))
                continue
            kk = ek if ek is not None else key
            ov = old if ek is not None else mkval(T('mval', m.base, kk), m.vty)
            ent = tuple(e for e in cur.ent if e[0] != kk) + ((kk, False, None),)
            s3.facts.add_le(ONE - cur.n)
            I.write(s3, o, p, Map(cur.base, ent, cur.n - 1, cur.kty, cur.vty))
            s3.emit('mremove', (o, p), kk, True)
            outs.append((s3, some(ov)))
    return outs


@model('BTreeMap::entry', 'HashMap::entry')
def m_entry(c, st, a):
    I = c.I
    return ret(st, Agg(('entry',), 0, (a[0], a[1])))


def entry_do(c, st, e, mk):
    """entry(..).or_*: mk(state) -> [(state, value)] for a vacant entry"""
    I = c.I
    r, k = e.f
    outs = []
    for s2, ref in map_get(c, st, r, k, True):
        if ref is not None:
            outs.append((s2, ref))
            continue
        for s3, v in mk(s2):
            for s4, old in map_insert(c, s3, r, k, v):
                o, p, m = map_at(I, s4, r)
                outs.append((s4, Ref(o, p + (('mk', keyval(I, s4, k)),), True)))
    return outs


@model('Entry::or_insert')
def m_or_insert(c, st, a):
    return entry_do(c, st, a[0], lambda s: [(s, a[1])])


@model('Entry::or_insert_with')
def m_or_insert_with(c, st, a):
    return entry_do(c, st, a[0], lambda s: c.call(s, a[1], []))


@model('Entry::or_default')
def m_or_default(c, st, a):
    vty = map_at(c.I, st, a[0].f[0])[2].vty
    return entry_do(c, st, a[0], lambda s: default_of(c, s, vty))


@model('Entry::and_modify')
def m_and_modify(c, st, a):
    I = c.I
    r, k = a[0].f
    outs = []
    for s2, ref in map_get(c, st, r, k, True):
        if ref is None:
            outs.append((s2, a[0]))
        else:
            for s3, _ in c.call(s2, a[1], [ref]):
                outs.append((s3, a[0]))
    return outs


@model('HashMap::retain', 'BTreeMap::retain')
def m_map_retain(c, st, a):
    I = c.I
    o, p, m = map_at(I, st, a[0])
    n = I.havoc_val(st, m, 'retain')
    st.facts.add_le(n.n - m.n)
    I.write(st, o, p, n)
    st.emit('mretain', (o, p), a[1])
    I.note_havoc(c.cn)
    return ret(st, UNIT)


# ------------------------------------------------------------------ defaults, clones, comparisons, conversions
def default_of(c, st, ty):
    I = c.I
    k = ty[0]
    if k in ('int', 'char'):
        return [(st, ZERO)]
    if k == 'bool':
        return [(st, False)]
    if k == 'tuple':
        outs = [(st, ())]
        for t in ty[1]:
            outs = [(s3, fs + (v,)) for s2, fs in outs for s3, v in default_of(c, s2, t)]
        return [(s, Agg(('tuple',), 0, fs) if fs else UNIT) for s, fs in outs]
    if k == 'array':
        outs = default_of(c, st, ty[1])
        n = const(int(ty[2]))
        return [(s, Seq((('r', v, n),) if n.c else (), n, ty[1])) for s, v in outs]
    if is_seq_ty(ty):
        return [(st, Seq((), ZERO, elem_ty(ty), (), ZERO))]
    if is_map_ty(ty):
        return [(st, Map(T('fresh', 'empty', 0), (), ZERO, ty[2][0], ty[2][1]))]
    if k == 'ref' and ty[2][0] in ('str', 'slice'):
        return [(st, Slice(('C', b''), (), ZERO, ZERO, ty[2][0] == 'str'))]
    if k == 'adt':
        n = ADTS[ty[1]]['name']
        if n == 'Option':
            return [(st, none())]
        for f in I.prog.impls.get(('Default', 'default'), ()):
            env = {}
            if unify(f.selfty, ty, env):
                return I.call_fn(st, f, [], env, (c.b, 'default'), c.fr, ty)
        if n == 'PhantomData':
            return [(st, Agg(('adt', ty[1]), 0, ()))]
        if n in ('Box', 'Arc', 'Rc'):
            return [(s, Agg(('box',), 0, (v,))) for s, v in default_of(c, st, ty[2][0])]
    I.note_havoc('Default for ' + mir.tshow(ty))
    return [(st, mkval(T('default', mir.tshow(ty)), ty))]


@model('Default::default')
def m_default(c, st, a):
    ty = c.dty if c.dty is not None and c.dty[0] not in ('param', 'other') else c.selfty
    if ty is None:
        ty = c.selfty
    return default_of(c, st, ty)


def clone_val(c, st, v):
    """-> [(state, value)]"""
    I = c.I
    k = v.__class__
    if k in (Lin, bool, Term, Slice, Ref, FnV):
        return [(st, v)]
    if k is Sym:
        ty = v.ty
        return [(st, v)]
    if k is Agg:
        outs = [(st, ())]
        for x in v.f:
            outs = [(s3, fs + (w,)) for s2, fs in outs for s3, w in clone_val(c, s2, x)]
        return [(s, Agg(v.tag, v.var, fs)) for s, fs in outs]
    if k is Seq:
        return [(st, clone_seq(I, st, v))]
    if k is Map:
        return [(st, v)]
    raise Giveup('clone of %r' % (v,))


@model('Clone::clone', 'ToOwned::to_owned')
def m_clone(c, st, a):
    I = c.I
    v = a[0]
    if v.__class__ is Ref:
        w = I.read(st, v.obj, v.path)
        if c.cn.startswith('ToOwned') and w.__class__ is Slice and c.selfty is not None and c.selfty[0] in ('str', 'slice'):
            return ret(st, clone_seq(I, st, I.slice_seq(st, w)))
        return clone_val(c, st, w)
    if v.__class__ is Slice:
        if c.selfty is not None and c.selfty[0] == 'ref':
            return ret(st, v)
        return ret(st, clone_seq(I, st, I.slice_seq(st, v)))
    return ret(st, v)


@model('Clone::clone_from')
def m_clone_from(c, st, a):
    outs = []
    for s2, v in m_clone(c, st, [a[1]]):
        c.I.write(s2, a[0].obj, a[0].path, v)
        outs.append((s2, UNIT))
    return outs


def deep(I, st, v):
    for _ in range(6):
        if v.__class__ is Ref:
            v = I.read(st, v.obj, v.path)
        else:
            break
    return v


def seq_eq(c, st, p, q):
    """-> [(state, formula)] for equality of two sequences"""
    I = c.I
    if p is q:
        return [(st, True)]
    pc = all(g[0] == 'c' for g in p.segs) and not p.ov
    qc = all(g[0] == 'c' for g in q.segs) and not q.ov
    if pc and qc:
        a = [x for g in p.segs for x in g[1]]
        b = [x for g in q.segs for x in g[1]]
        return [(st, a == b)]
    if pc or qc:
        if qc:
            p, q = q, p
        # p constant
        if st.facts.decide(eq(p.n, q.n)) is False:
            return [(st, False)]
        data = tuple(x for g in p.segs for x in g[1])
        if q.ety == U8:
            return [(st, streq(I, st, q, bytes(data)))]
    t1, t2 = I.seqterm(st, p), I.seqterm(st, q)
    if t1 is t2:
        return [(st, True)]
    if st.facts.decide(eq(p.n, q.n)) is False:
        return [(st, False)]
    # short fixed-size arrays: element by element
    if p.n.is_const() and p.n.c <= 32 and p.ety and p.ety[0] == 'int':
        ea, eb = I.seq_explode(p), I.seq_explode(q)
        if all(g[0] == 'e' for g in ea) and all(g[0] == 'e' for g in eb) and len(ea) == len(eb) and not p.ov and not q.ov:
            if p.n.c <= 8 or any(all(g[1].__class__ is Lin and g[1].is_const() for g in e) for e in (ea, eb)):
                r = True
                for x, y in zip(ea, eb):
                    r = band(r, eq(x[1], y[1]))
                return [(st, r)]
            diff = [(x[1], y[1]) for x, y in zip(ea, eb) if x[1] is not y[1]]
            if not diff:
                return [(st, True)]
            if any(st.facts.decide(eq(x, y)) is False for x, y in diff[:4]):
                return [(st, False)]
    a, b = (t1, t2) if t1.id < t2.id else (t2, t1)
    return [(st, T('seqeq', a, b, ty=('bool',)))]


def streq(I, st, q, data):
    """equality with a constant: one fact, whose consequences for length and bytes Facts knows"""
    t = I.seqterm(st, q)
    if (t, data) not in STREQ:
        el = ()
        if 0 < len(data) <= 16 and len(q.segs) == 1 and q.segs[0][0] == 's' and not q.ov and q.ety == U8:
            el = tuple(I.seq_get(st, q, const(k)) for k in range(len(data)))
            if not all(e.__class__ is Lin for e in el):
                el = ()
        STREQ[(t, data)] = (q.n, el)
    return T('streq', t, data, ty=('bool',))


def val_eq(c, st, x, y):
    """-> [(state, formula)]"""
    I = c.I
    x, y = deep(I, st, x), deep(I, st, y)
    if x.__class__ is Lin and y.__class__ is Lin:
        return [(st, eq(x, y))]
    if x.__class__ in (bool, Term) and y.__class__ in (bool, Term):
        return [(st, I.bool_cmp('Eq', x, y))]
    if x == y and x.__class__ in (Sym, Slice, Ref):
        return [(st, True)]
    try:
        p, q = seq_of(I, st, x), seq_of(I, st, y)
        return seq_eq(c, st, p, q)
    except Giveup:
        pass
    # enums and structs
    if x.__class__ in (Agg, Sym) and y.__class__ in (Agg, Sym):
        tx, ty_ = I.typeof(st, x), I.typeof(st, y)
        for t in (tx, ty_):
            if t[0] == 'adt' and ADTS[t[1]]['local']:
                f = find_impl(I, 'PartialEq', 'eq', t)
                if f:
                    rx, ry = tmp(I, st, x), tmp(I, st, y)
                    return I.call_fn(st, f, [rx, ry], {}, (c.b, 'eq'), c.fr, ('bool',))
        enum = tx[0] == 'adt' and ADTS[tx[1]]['kind'] == 'enum' or ty_[0] == 'adt' and ADTS[ty_[1]]['kind'] == 'enum'
        if enum:
            outs = []
            for s2, i, vx in I.variants_of(st, x):
                for s3, j, vy in I.variants_of(s2, y):
                    if i != j:
                        outs.append((s3, False))
                        continue
                    acc = [(s3, True)]
                    if vx.__class__ is Agg and vy.__class__ is Agg:
                        for u, w in zip(vx.f, vy.f):
                            acc = [(s5, band(r, r2)) for s4, r in acc for s5, r2 in val_eq(c, s4, u, w)]
                    outs += acc
            return outs
        vx, vy = I.expand(st, x), I.expand(st, y)
        if vx.__class__ is Agg and vy.__class__ is Agg and len(vx.f) == len(vy.f):
            acc = [(st, True)]
            for u, w in zip(vx.f, vy.f):
                acc = [(s5, band(r, r2)) for s4, r in acc for s5, r2 in val_eq(c, s4, u, w)]
            return acc
    t1, t2 = I.vterm(st, x), I.vterm(st, y)
    if t1 is t2:
        return [(st, True)]
    return [(st, T('veq', t1, t2, ty=('bool',)))]


def find_impl(I, tr, m, ty):
    for f in I.prog.impls.get((tr, m), ()):
        if f.crate != 'prelude' and unify(f.selfty, ty, {}):
            return f
    return None


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(c, st, a):
    hn = c.I.head_name(st, a[0])
    x = deep(c.I, st, a[0])
    if x.__class__ is Agg and x.tag[0] == 'adt' and ADTS[x.tag[1]]['name'] == 'Option':
        pass
    r = val_eq(c, st, a[0], a[1])
    if c.cn.endswith('ne'):
        r = [(s, bnot(v)) for s, v in r]
    return r


@model('str::eq_ignore_ascii_case', '[T]::eq_ignore_ascii_case')
def m_eqic(c, st, a):
    I = c.I
    p, q = seq_of(I, st, a[0]), seq_of(I, st, a[1])
    return ret(st, band(T('eqic', I.seqterm(st, p), I.seqterm(st, q), ty=('bool',)), eq(p.n, q.n)))


def cmp_vals(c, st, x, y):
    """-> [(state, -1/0/1)] three-way comparison of ordered values"""
    I = c.I
    x, y = deep(I, st, x), deep(I, st, y)
    if x.__class__ is bool:
        x = const(int(x))
    if y.__class__ is bool:
        y = const(int(y))
    if x.__class__ is Lin and y.__class__ is Lin:
        outs = []
        for s2, l in I.branch(st, lt(x, y)):
            if l:
                outs.append((s2, 0))
            else:
                for s3, e in I.branch(s2, eq(x, y)):
                    outs.append((s3, 1 if e else 2))
        return outs
    if x.__class__ in (Agg, Sym):
        t = I.typeof(st, x)
        if t[0] == 'adt' and ADTS[t[1]]['local']:
            f = find_impl(I, 'Ord', 'cmp', t)
            if f:
                outs = []
                for s2, v in I.call_fn(st, f, [tmp(I, st, x), tmp(I, st, y)], {}, (c.b, 'cmp'), c.fr, None):
                    for s3, i, _ in I.variants_of(s2, v):
                        outs.append((s3, i))
                return outs
        vx, vy = I.expand(st, x), I.expand(st, y)
        if vx.__class__ is Agg and vy.__class__ is Agg and vx.tag == ('tuple',) and len(vx.f) == len(vy.f):
            cur = [st]
            outs = []
            for u, w in zip(vx.f, vy.f):
                nxt = []
                for s in cur:
                    for s2, o in cmp_vals(c, s, u, w):
                        if o == 1:
                            nxt.append(s2)
                        else:
                            outs.append((s2, o))
                cur = nxt
            outs += [(s, 1) for s in cur]
            return outs
        if vx.__class__ is Agg and vx.tag[0] == 'adt' and vx.tag == (vy.tag if vy.__class__ is Agg else None) and ADTS[vx.tag[1]]['name'] in ('Reverse',):
            return [(s, 2 - o) for s, o in cmp_vals(c, st, vy.f[0], vx.f[0])]
    t1, t2 = I.vterm(st, x), I.vterm(st, y)
    if t1 is t2:
        return [(st, 1)]
    flip = t1.__class__ is Term and t2.__class__ is Term and t1.id > t2.id
    a, b = (t2, t1) if flip else (t1, t2)
    L, E = T('vlt', a, b, ty=('bool',)), None
    p = q = None
    try:
        p, q = seq_of(I, st, x), seq_of(I, st, y)
        E = T('seqeq', a, b, ty=('bool',))
    except Giveup:
        E = T('veq', a, b, ty=('bool',))
    outs = []
    for s2, e in I.branch(st, E):
        if e:
            outs.append((s2, 1))
        else:
            for s3, l in I.branch(s2, L):
                outs.append((s3, (2 if l else 0) if flip else (0 if l else 2)))
    return outs


@model('Ord::cmp', 'Iterator::cmp')
def m_cmp(c, st, a):
    return [(s, ordering(o)) for s, o in cmp_vals(c, st, a[0], a[1])]


@model('PartialOrd::partial_cmp')
def m_pcmp(c, st, a):
    x = deep(c.I, st, a[0])
    if x.__class__ is Sym and x.ty[0] == 'float':
        return None
    return [(s, some(ordering(o))) for s, o in cmp_vals(c, st, a[0], a[1])]


def m_pord(c, st, a):
    I = c.I
    op = c.cn.split('::')[-1]
    x, y = deep(I, st, a[0]), deep(I, st, a[1])
    if x.__class__ is Lin and y.__class__ is Lin:
        r = {'lt': lt(x, y), 'le': leq(x, y), 'gt': lt(y, x), 'ge': leq(y, x)}[op]
        return ret(st, r)
    tx = I.typeof(st, x)
    if tx[0] == 'float':
        x, y = I.vterm(st, x), I.vterm(st, y)
        if op in ('gt', 'ge'):
            op, x, y = {'gt': 'lt', 'ge': 'le'}[op], y, x
        return ret(st, T('f' + op.capitalize(), x, y, ty=('bool',)))
    if tx[0] == 'adt' and ADTS[tx[1]]['local']:
        f = find_impl(I, 'PartialOrd', 'partial_cmp', tx)
        if f:
            outs = []
            for s2, v in I.call_fn(st, f, [tmp(I, st, x), tmp(I, st, y)], {}, (c.b, 'pcmp'), c.fr, None):
                for s3, i, ov in I.variants_of(s2, v):
                    if i == 0:
                        outs.append((s3, False))
                        continue
                    for s4, k, _ in I.variants_of(s3, ov.f[0]):
                        outs.append((s4, {'lt': k == 0, 'le': k <= 1, 'gt': k == 2, 'ge': k >= 1}[op]))
            return outs
    return [(s, {'lt': k == 0, 'le': k <= 1, 'gt': k == 2, 'ge': k >= 1}[op]) for s, k in cmp_vals(c, st, x, y)]


for _n in ('lt', 'le', 'gt', 'ge'):
    MODELS['PartialOrd::' + _n] = m_pord


def m_minmax(c, st, a):
    I = c.I
    mx = c.cn.endswith('max')
    x, y = a[0], a[1]
    outs = []
    if x.__class__ is Lin and y.__class__ is Lin:
        for s2, l in I.branch(st, lt(y, x)):
            outs.append((s2, (x if l else y) if mx else (y if l else x)))
        return outs
    for s2, o in cmp_vals(c, st, x, y):
        outs.append((s2, (x if o == 2 else y) if mx else (y if o == 2 else x)))
    return outs


for _n in ('Ord::min', 'Ord::max', 'cmp::min', 'cmp::max'):
    MODELS[_n] = m_minmax


@model('Ord::clamp')
def m_clamp(c, st, a):
    I = c.I
    if not all(x.__class__ is Lin for x in a):
        return None
    c.oblige(st, 'clamp bounds', leq(a[1], a[2]))
    outs = []
    for s2, l in I.branch(st, lt(a[0], a[1])):
        if l:
            outs.append((s2, a[1]))
        else:
            for s3, g in I.branch(s2, lt(a[2], a[0])):
                outs.append((s3, a[2] if g else a[0]))
    return outs


def convert(c, st, v, src, dst):
    """From/Into -> [(state, value)] or None"""
    I = c.I
    if src is not None and dst is not None and src == dst:
        return [(st, v)]
    dn = mir.tname(dst) if dst else '?'
    if dst is not None and dst[0] == 'adt':
        for f in I.prog.impls.get(('From', 'from'), ()):
            if f.crate == 'prelude':
                continue
            env = {}
            if unify(f.selfty, dst, env) and (src is None or not f.targs or unify(f.targs[-1], src, env) or same_shape(f.targs[-1], src)):
                return I.call_fn(st, f, [v], env, (c.b, 'from'), c.fr, dst)
    if src is not None and src[0] == 'adt' and ADTS[src[1]]['local']:
        for f in I.prog.impls.get(('From', 'from'), ()):
            env = {}
            if f.targs and unify(f.targs[-1], src, env) and dst is not None and unify(f.selfty, dst, env):
                return I.call_fn(st, f, [v], env, (c.b, 'from'), c.fr, dst)
    if dn == 'Error' and dst[0] == 'adt' and v.__class__ is Agg and adtname(v) == 'ErrorKind':
        return [(st, io_error(v, dst))]
    if dst is not None and dst[0] == 'int' and v.__class__ is Lin:
        return [(st, v)]
    if dst is not None and dst[0] == 'char' and v.__class__ is Lin:
        return [(st, v)]
    if dst is not None and dst[0] == 'int' and v.__class__ in (bool, Term):
        return [(st, I.cast_val(st, v, ('bool',), dst))]
    if dn in ('String', 'Vec', 'Cow', 'PathBuf', 'Box', 'OsString', 'Rc', 'Arc') and dst[0] == 'adt':
        if dn == 'PathBuf':
            pp = path_of(I, st, v)
            try:
                return [(st, Agg(('pathbuf',), 0, (pp if pp is not None else path_push(c, st, Seq((), ZERO, ('other', 'component')), v),)))]
            except Giveup:
                return None
        if dn in ('Cow', 'OsString', 'Rc', 'Arc'):
            return None
        try:
            q = seq_of(I, st, v)
            if dn == 'Box':
                return [(st, Agg(('box',), 0, (q,)))]
            return [(st, clone_seq(I, st, q))]
        except Giveup:
            return None
    return None


def same_shape(p, s):
    """parameter type of a From impl against a value type known only roughly"""
    if p is None or s is None:
        return True
    if p[0] == 'ref' and s[0] == 'ref':
        return same_shape(p[2], s[2])
    if p[0] == 'slice' and s[0] in ('array', 'seq'):
        return True
    if p[0] == 'adt' and s[0] in ('seq', 'map'):
        return True
    if p[0] == 'adt' and s[0] == 'adt':
        return p[1] == s[1]
    return p == s


@model('From::from')
def m_from(c, st, a):
    src = c.targs[1] if len(c.targs) > 1 else c.I.typeof(st, a[0])
    return convert(c, st, a[0], src, c.selfty)


@model('Into::into')
def m_into(c, st, a):
    dst = c.targs[1] if len(c.targs) > 1 else c.dty
    return convert(c, st, a[0], c.selfty, dst)


def try_convert(c, st, v, dst):
    I = c.I
    d = c.dty
    et = d[2][1] if d and d[0] == 'adt' and len(d[2]) > 1 else ('other', None)
    outs = []
    if dst is not None and dst[0] in ('int', 'char') and v.__class__ is Lin:
        lo, hi = ty_range(dst)
        for s2, y in I.branch(st, band(leq(const(lo), v), leq(v, const(hi)))):
            outs.append((s2, ok(v) if y else err(mkval(fresh('tryfrom'), et))))
        return outs
    if dst is not None and dst[0] == 'array' or dst is not None and dst[0] == 'ref' and dst[2][0] == 'array':
        arr = dst if dst[0] == 'array' else dst[2]
        try:
            q = seq_of(I, st, v)
        except Giveup:
            return None
        n = const(int(arr[2]))
        for s2, y in I.branch(st, eq(q.n, n)):
            if not y:
                outs.append((s2, err(mkval(fresh('tryfrom'), et))))
            else:
                q2 = Seq(q.segs if len(q.segs) != 1 or q.segs[0][0] not in ('s', 'rs', 'r') else (q.segs[0][:-1] + (n,),), n, q.ety, q.ov)
                outs.append((s2, ok(q2 if dst[0] == 'array' else tmp(I, s2, q2))))
        return outs
    for f in I.prog.impls.get(('TryFrom', 'try_from'), ()):
        if unify(f.selfty, dst, {}):
            return I.call_fn(st, f, [v], {}, (c.b, 'tryfrom'), c.fr, d)
    return None


@model('TryFrom::try_from')
def m_try_from(c, st, a):
    return try_convert(c, st, a[0], c.selfty)


@model('TryInto::try_into')
def m_try_into(c, st, a):
    dst = c.targs[1] if len(c.targs) > 1 else None
    return try_convert(c, st, a[0], dst)


@model('FromResidual::from_residual')
def m_residual(c, st, a):
    I = c.I
    v = a[0]
    if v.__class__ is Sym:
        v = I.expand(st, v)
        if v.__class__ is Sym:
            v = I.expand(st, v, 1 if mir.tname(v.ty) == 'Result' else 0)
    n = ADTS[v.tag[1]]['name']
    if n == 'Option':
        return ret(st, none())
    e = v.f[0]
    dst = None
    d = c.selfty if c.selfty is not None and c.selfty[0] == 'adt' else c.dty
    if d is not None and d[0] == 'adt' and len(d[2]) > 1:
        dst = d[2][1]
    src = None
    if len(c.targs) > 1 and c.targs[1][0] == 'adt' and len(c.targs[1][2]) > 1:
        src = c.targs[1][2][1]
    if src is None or src[0] in ('other', 'param'):
        src = I.typeof(st, e)
    if src == dst or dst is None or dst[0] in ('param', 'other'):
        return ret(st, err(e))
    r = convert(c, st, e, src, dst)
    if r is None:
        return ret(st, err(mkval(T('converted', I.vterm(st, e)), dst)))
    return [(s, err(x)) for s, x in r]


@model('AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Deref::deref', 'DerefMut::deref_mut')
def m_deref(c, st, a):
    I = c.I
    v = a[0]
    if v.__class__ is Slice:
        if c.cn == 'AsRef::as_ref' and len(c.targs) > 1 and c.targs[1][0] == 'slice':
            return ret(st, Slice(v.obj, v.path, v.lo, v.n, False, v.mut))
        return ret(st, v)
    if v.__class__ is Ref:
        w = I.read(st, v.obj, v.path)
        if w.__class__ is Agg and w.tag[0] == 'box':
            x = w.f[0]
            if x.__class__ is Seq:
                return ret(st, Slice(v.obj, v.path + (('f', 0, None),), ZERO, x.n, False, v.mut))
            return ret(st, Ref(v.obj, v.path + (('f', 0, None),), v.mut))
        try:
            s = seq_at(I, st, v)
            isstr = s.st
            d = c.dty
            if d is not None and d[0] == 'ref' and d[2][0] in ('str', 'slice'):
                isstr = d[2][0] == 'str'
            elif c.selfty is not None and mir.tname(c.selfty) in ('String', 'str'):
                isstr = True
            if d is not None and d[0] == 'ref' and d[2][0] == 'adt' and mir.tname(d[2]) in ('Path', 'OsStr'):
                return None
            return ret(st, Slice(s.obj, s.path, s.lo, s.n, isstr, s.mut))
        except Giveup:
            pass
        if w.__class__ in (Ref,):
            return ret(st, w)
        if w.__class__ is Sym and mir.tname(w.ty) == 'Box':
            return ret(st, Ref(v.obj, v.path + (('f', 0, None),), v.mut))
        if w.__class__ is Sym and mir.tname(w.ty) in ('Rc', 'Arc'):
            t = T('fld', w.t, 'rc')
            DTY[t] = w.ty[2][0]
            return ret(st, Ref(('D', t), (), False))
    return None


@model('Box::new', 'Rc::new', 'Arc::new')
def m_box(c, st, a):
    return ret(st, Agg(('box',), 0, (a[0],)))


@model('Box::new_uninit')
def m_box_uninit(c, st, a):
    ty = c.targs[0] if c.targs else ('other', None)
    return ret(st, Agg(('box',), 0, (Agg(('uninit',), 0, ()),)))


@model('boxed::box_assume_init_into_vec_unsafe')
def m_box_into_vec(c, st, a):
    I = c.I
    v = a[0]
    if v.__class__ is Agg and v.tag[0] == 'box':
        x = v.f[0]
        while x.__class__ is Agg and len(x.f) == 1:
            x = x.f[0]
        if x.__class__ is Seq:
            p = payload(x.segs[-1][1]) if x.segs and x.segs[-1][0] == 'e' and len(x.segs) == 1 else None
            return ret(st, Seq(x.segs, x.n, x.ety, x.ov, p))
    raise Giveup('vec! of %r' % (v,))


@model('mem::replace')
def m_replace(c, st, a):
    I = c.I
    old = I.read(st, a[0].obj, a[0].path)
    I.write(st, a[0].obj, a[0].path, a[1])
    return ret(st, old)


@model('mem::take')
def m_take(c, st, a):
    I = c.I
    old = I.read(st, a[0].obj, a[0].path)
    outs = []
    ty = c.dty if c.dty is not None else I.typeof(st, old)
    for s2, d in default_of(c, st, ty):
        I.write(s2, a[0].obj, a[0].path, d)
        outs.append((s2, old))
    return outs


@model('mem::swap')
def m_mswap(c, st, a):
    I = c.I
    x = I.read(st, a[0].obj, a[0].path)
    y = I.read(st, a[1].obj, a[1].path)
    I.write(st, a[0].obj, a[0].path, y)
    I.write(st, a[1].obj, a[1].path, x)
    return ret(st, UNIT)


@model('mem::drop', 'mem::forget')
def m_drop(c, st, a):
    return ret(st, UNIT)


@model('mem::size_of')
def m_size_of(c, st, a):
    return None


# ------------------------------------------------------------------ integers
INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']


def ity(c):
    n = c.cn.split('::')[0]
    b = {'usize': 64, 'isize': 64}.get(n) or int(n[1:])
    return ('int', n[0] == 'i', b, n)


def int_op(op):
    def wrapping(c, st, a):
        r, o = c.I.arith(st, op, a[0], a[1], ity(c), False)
        return ret(st, r)

    def checked(c, st, a):
        r, o = c.I.arith(st, op, a[0], a[1], ity(c), True)
        return [(s, none() if y else some(r)) for s, y in c.I.branch(st, o)]

    def overflowing(c, st, a):
        r, o = c.I.arith(st, op, a[0], a[1], ity(c), True)
        outs = []
        for s, y in c.I.branch(st, o):
            outs.append((s, Agg(('tuple',), 0, (c.I.wrap(s, r, ity(c)), y))))
        return outs

    def saturating(c, st, a):
        ty = ity(c)
        lo, hi = ty_range(ty)
        r, o = c.I.arith(st, op, a[0], a[1], ty, True)
        outs = []
        for s, y in c.I.branch(st, o):
            if not y:
                outs.append((s, r))
            else:
                for s2, big in c.I.branch(s, lt(const(hi), r)):
                    outs.append((s2, const(hi) if big else const(lo)))
        return outs
    return wrapping, checked, overflowing, saturating


for _o, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
    _w, _c, _ov, _s = int_op(_o)
    for _t in INTS:
        MODELS['%s::wrapping_%s' % (_t, _n)] = _w
        MODELS['%s::checked_%s' % (_t, _n)] = _c
        MODELS['%s::overflowing_%s' % (_t, _n)] = _ov
        MODELS['%s::saturating_%s' % (_t, _n)] = _s


def m_neg_shift(op):
    def f(c, st, a):
        ty = ity(c)
        sh = a[1]
        if sh.is_const():
            sh = const(sh.c % ty[2])
        return ret(st, c.I.bits(st, op, a[0], sh, ty))
    return f


def m_checked_div(op):
    def f(c, st, a):
        I = c.I
        ty = ity(c)
        outs = []
        for s, z in I.branch(st, eq0(a[1])):
            outs.append((s, none() if z else some(I.bits(s, op, a[0], a[1], ty))))
        return outs
    return f


def m_abs_diff(c, st, a):
    outs = []
    for s, l in c.I.branch(st, lt(a[0], a[1])):
        outs.append((s, a[1] - a[0] if l else a[0] - a[1]))
    return outs


def m_abs(c, st, a):
    ty = ity(c)
    lo, hi = ty_range(ty)
    outs = []
    for s, neg in c.I.branch(st, lt(a[0], ZERO)):
        if neg:
            if c.cn.endswith('::abs'):
                c.I.oblige(s, c.fr, c.b, 'abs overflow', lt(const(lo), a[0]))
            outs.append((s, -a[0]))
        else:
            outs.append((s, a[0]))
    return outs


def m_be(order):
    def f(c, st, a):
        I = c.I
        ty = ity(c)
        q = seq_of(I, st, a[0])
        n = ty[2] // 8
        r = ZERO
        for k in range(n):
            b = I.seq_get(st, q, const(k))
            w = n - 1 - k if order == 'be' else k
            r = r + b * (1 << (8 * w))
        if ty[1]:
            r = I.wrap(st, r, ty)
        return ret(st, r)
    return f


def m_to_be(order):
    def f(c, st, a):
        I = c.I
        ty = ity(c)
        n = ty[2] // 8
        v = a[0]
        if ty[1]:
            v = I.cast_val(st, v, ty, ('int', False, ty[2], 'u%d' % ty[2]))
        segs = []
        for k in range(n):
            w = n - 1 - k if order == 'be' else k
            segs.append(('e', rem(div(v, 1 << (8 * w)), 256)))
        return ret(st, Seq(segs, const(n), U8))
    return f


def m_lz(c, st, a):
    ty = ity(c)
    v = a[0]
    if v.is_const():
        x = v.c & ((1 << ty[2]) - 1)
        return ret(st, const(ty[2] - x.bit_length()))
    t = T('lz', v, ty[2], ty=('int', False, 32, 'u32'))
    if v.single() is not None and t not in LZ.setdefault(v.single(), []):
        LZ[v.single()].append(t)
    st.facts._set_iv(t, 0, ty[2])
    d = st.facts.decide(eq0(v))
    if d is True:
        st.facts._set_iv(t, ty[2], ty[2])
    elif d is False:
        st.facts._set_iv(t, 0, ty[2] - 1)
    return ret(st, atom(t))


def m_bitcount(c, st, a):
    ty = ity(c)
    n = c.cn.split('::')[1]
    x = a[0].single() if a[0].__class__ is Lin else None
    if x is not None and x.lo == 0 and x.hi is not None and x.hi <= 255 and n in ('count_ones', 'count_zeros'):
        return ret(st, fn8([bin(v).count('1') if n == 'count_ones' else ty[2] - bin(v).count('1') for v in range(256)], x))
    t = T(n, a[0], ty[2], ty=('int', False, 32, 'u32'))
    st.facts._set_iv(t, 0, ty[2])
    return ret(st, atom(t))


def m_pow(c, st, a):
    I = c.I
    ty = ity(c)
    if a[0].is_const() and a[1].is_const() and a[1].c < 200:
        r = const(a[0].c ** a[1].c)
        lo, hi = ty_range(ty)
        c.oblige(st, 'pow overflow', band(leq(const(lo), r), leq(r, const(hi))))
        return ret(st, r)
    t = T('pow', a[0], a[1], ty=ty)
    c.oblige(st, 'pow overflow', T('powfits', a[0], a[1], ty[2]))
    return ret(st, atom(t))


def m_fun(c, st, a):
    return ret(st, mkval(T('f_' + c.cn.split('::')[1], *[c.I.vterm(st, x) for x in a]), c.dty))


for _n in ('ln', 'log2', 'log10', 'exp', 'sqrt', 'powi', 'powf', 'abs', 'floor', 'ceil', 'round', 'trunc', 'min', 'max', 'recip', 'log'):
    MODELS['f64::' + _n] = m_fun


for _t in INTS:
    MODELS['%s::wrapping_shl' % _t] = m_neg_shift('Shl')
    MODELS['%s::wrapping_shr' % _t] = m_neg_shift('Shr')
    MODELS['%s::checked_div' % _t] = m_checked_div('Div')
    MODELS['%s::checked_rem' % _t] = m_checked_div('Rem')
    MODELS['%s::abs_diff' % _t] = m_abs_diff
    MODELS['%s::abs' % _t] = m_abs
    MODELS['%s::unsigned_abs' % _t] = m_abs
    MODELS['%s::from_be_bytes' % _t] = m_be('be')
    MODELS['%s::from_le_bytes' % _t] = m_be('le')
    MODELS['%s::from_ne_bytes' % _t] = m_be('le')
    MODELS['%s::to_be_bytes' % _t] = m_to_be('be')
    MODELS['%s::to_le_bytes' % _t] = m_to_be('le')
    MODELS['%s::to_ne_bytes' % _t] = m_to_be('le')
    MODELS['%s::leading_zeros' % _t] = m_lz
    MODELS['%s::from_str_radix' % _t] = m_radix
    for _n in ('trailing_zeros', 'count_ones', 'count_zeros', 'leading_ones', 'trailing_ones'):
        MODELS['%s::%s' % (_t, _n)] = m_bitcount
    MODELS['%s::pow' % _t] = m_pow
    MODELS['%s::min_value' % _t] = lambda c, st, a: ret(st, const(ty_range(ity(c))[0]))
    MODELS['%s::max_value' % _t] = lambda c, st, a: ret(st, const(ty_range(ity(c))[1]))
    MODELS['%s::min' % _t] = m_minmax
    MODELS['%s::max' % _t] = m_minmax
    MODELS['%s::is_power_of_two' % _t] = lambda c, st, a: None


def in_class(I, st, v, masks):
    """v (u8 or char) lies in one of the byte ranges"""
    r = False
    for lo, hi in masks:
        r = bor(r, band(leq(const(lo), v), leq(v, const(hi))))
    if v.single() is not None and v.single().ty == U8:
        m = 0
        for lo, hi in masks:
            m |= mask_range(lo, hi)
        return T('inmask', v.single(), m)
    return r


CLASSES = {
    'is_ascii_digit': [(48, 57)], 'is_ascii_hexdigit': [(48, 57), (65, 70), (97, 102)],
    'is_ascii_alphabetic': [(65, 90), (97, 122)], 'is_ascii_alphanumeric': [(48, 57), (65, 90), (97, 122)],
    'is_ascii_uppercase': [(65, 90)], 'is_ascii_lowercase': [(97, 122)], 'is_ascii': [(0, 127)],
    'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)], 'is_ascii_control': [(0, 31), (127, 127)],
    'is_ascii_graphic': [(33, 126)], 'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)],
}


def m_class(c, st, a):
    I = c.I
    v = deep(I, st, a[0])
    if v.__class__ is not Lin:
        return None
    return ret(st, in_class(I, st, v, CLASSES[c.cn.split('::')[1]]))


for _n in CLASSES:
    MODELS['u8::' + _n] = m_class
    MODELS['char::' + _n] = m_class


def digit_ranges(radix):
    r = [(48, 48 + min(radix, 10) - 1)]
    if radix > 10:
        r += [(97, 97 + radix - 11), (65, 65 + radix - 11)]
    return r


@model('char::is_digit')
def m_is_digit(c, st, a):
    if not a[1].is_const():
        return None
    c.oblige(st, 'radix', leq(a[1], const(36)))
    return ret(st, in_class(c.I, st, a[0], digit_ranges(a[1].c)))


@model('char::to_digit')
def m_to_digit(c, st, a):
    if not a[1].is_const():
        return None
    I = c.I
    outs = []
    v = a[0]
    cur = st
    for lo, hi in digit_ranges(a[1].c):
        nxt = None
        for s2, y in I.branch(cur, band(leq(const(lo), v), leq(v, const(hi)))):
            if y:
                outs.append((s2, some(v - lo + (0 if lo == 48 else 10))))
            else:
                nxt = s2
        cur = nxt
        if cur is None:
            return outs
    outs.append((cur, none()))
    return outs


def m_upper(lower):
    def f(c, st, a):
        I = c.I
        v = deep(I, st, a[0])
        if v.__class__ is not Lin:
            return None
        lo, hi, d = (65, 90, 32) if lower else (97, 122, -32)
        outs = []
        for s2, y in I.branch(st, band(leq(const(lo), v), leq(v, const(hi)))):
            outs.append((s2, v + d if y else v))
        return outs
    return f


MODELS['u8::to_ascii_lowercase'] = MODELS['char::to_ascii_lowercase'] = m_upper(True)
MODELS['u8::to_ascii_uppercase'] = MODELS['char::to_ascii_uppercase'] = m_upper(False)


@model('char::from_digit')
def m_from_digit(c, st, a):
    I = c.I
    outs = []
    for s2, y in I.branch(st, lt(a[0], a[1])):
        if not y:
            outs.append((s2, none()))
        else:
            for s3, z in I.branch(s2, lt(a[0], const(10))):
                outs.append((s3, some(a[0] + 48 if z else a[0] + 87)))
    return outs


@model('char::is_whitespace', 'char::is_alphabetic', 'char::is_alphanumeric', 'char::is_numeric', 'char::is_control', 'char::is_uppercase', 'char::is_lowercase')
def m_char_class(c, st, a):
    I = c.I
    v = deep(I, st, a[0])
    return ret(st, T(c.cn, v, ty=('bool',)))


@model('char::len_utf8')
def m_len_utf8(c, st, a):
    t = T('len', T('utf8', a[0]), ty=LEN)
    st.facts._set_iv(t, 1, 4)
    return ret(st, atom(t))


@model('char::from_u32')
def m_from_u32(c, st, a):
    outs = []
    for s2, y in c.I.branch(st, bor(leq(a[0], const(0xd7ff)), band(leq(const(0xe000), a[0]), leq(a[0], const(0x10ffff))))):
        outs.append((s2, some(a[0]) if y else none()))
    return outs


# ------------------------------------------------------------------ sockets
def sock_adt(n):
    return adt('std::net::' + n)


@model('SocketAddr::new')
def m_sock_new(c, st, a):
    return ret(st, Agg(('sock',), 0, (a[0], a[1])))


def as_ip(x, n):
    return Agg(('adt', adt('std::net::IpAddr')['key']), 0 if n == 4 else 1, (x,))


def whole_sock(v):
    return Agg(('sock',), 0, (as_ip(v.f[0], v.tag[1]), v.f[1]))


@model('SocketAddrV4::new', 'SocketAddrV6::new')
def m_sock46_new(c, st, a):
    if any(x is not ZERO for x in a[2:]):
        return None
    return ret(st, Agg(('sock46', 4 if 'V4' in c.cn else 6), 0, (a[0], a[1])))


def ip_variant(c, st, v):
    """[(state, 4|6)] for a socket address or an ip"""
    I = c.I
    v = deep(I, st, v)
    if v.__class__ is Agg and v.tag == ('sock',):
        v = v.f[0]
    return [(s, i) for s, i, _ in I.variants_of(st, v)]


@model('SocketAddr::is_ipv4', 'SocketAddr::is_ipv6', 'IpAddr::is_ipv4', 'IpAddr::is_ipv6')
def m_is_v4(c, st, a):
    want = 0 if c.cn.endswith('4') else 1
    return [(s, i == want) for s, i in ip_variant(c, st, a[0])]


@model('SocketAddr::ip')
def m_sock_ip(c, st, a):
    I = c.I
    v = deep(I, st, a[0])
    if v.__class__ is Agg and v.tag == ('sock',):
        return ret(st, v.f[0])
    out = []
    ip = adt('std::net::IpAddr') if 'std::net::IpAddr' in ADT_BY_PATH else None
    if ip is None:
        return None
    for s2, i, w in I.variants_of(st, v):
        inner = w.f[0] if w.__class__ is Agg else None
        t = I.vterm(s2, inner)
        fty = ip['variants'][i]['f'][0][1]
        out.append((s2, Agg(('adt', ip['key']), i, (mkval(T('ipof', t), fty),))))
    return out


@model('SocketAddr::port', 'SocketAddrV4::port', 'SocketAddrV6::port')
def m_sock_port(c, st, a):
    I = c.I
    v = deep(I, st, a[0])
    if v.__class__ is Agg and v.tag == ('sock',):
        return ret(st, v.f[1])
    out = []
    if v.__class__ is Sym and mir.tname(v.ty) == 'SocketAddr' or v.__class__ is Agg and v.tag[0] == 'adt':
        return ret(st, atom(T('portof', I.vterm(st, v), ty=('int', False, 16, 'u16'))))
    return ret(st, atom(T('portof', I.vterm(st, v), ty=('int', False, 16, 'u16'))))


@model('SocketAddrV4::ip', 'SocketAddrV6::ip')
def m_sock_v4ip(c, st, a):
    I = c.I
    v = deep(I, st, a[0])
    n = 'Ipv4Addr' if 'V4' in c.cn else 'Ipv6Addr'
    key = [i for i in ADTS.values() if i['name'] == n]
    if not key:
        return None
    t = T('ipof', I.vterm(st, v))
    return ret(st, tmp(I, st, mkval(t, ('adt', key[0]['key'], ()))))


@model('Ipv4Addr::octets', 'Ipv6Addr::octets')
def m_octets(c, st, a):
    I = c.I
    v = deep(I, st, a[0])
    n = 4 if '4' in c.cn else 16
    if v.__class__ is Agg and v.tag[0] == 'ipoct':
        return ret(st, v.f[0])
    t = T('octets', I.vterm(st, v))
    return ret(st, Seq((('s', t, ZERO, const(n)),), const(n), U8))


def ip_from(c, st, v, n):
    q = seq_of(c.I, st, v)
    return Agg(('ipoct', n), 0, (q,))


@model('Ipv4Addr::new')
def m_ipv4_new(c, st, a):
    return ret(st, Agg(('ipoct', 4), 0, (Seq([('e', x) for x in a], const(4), U8),)))


@model('Ipv4Addr::from_octets', 'Ipv6Addr::from_octets')
def m_ip_from_oct(c, st, a):
    return ret(st, ip_from(c, st, a[0], 4 if '4' in c.cn else 16))


_convert = convert


def convert2(c, st, v, src, dst):
    dn = mir.tname(dst) if dst else '?'
    if dn == 'SocketAddr' and v.__class__ is Agg:
        if v.tag[0] == 'sock46':
            return [(st, whole_sock(v))]
        if v.tag == ('tuple',) and len(v.f) == 2:
            ip = v.f[0]
            k = ip.tag[1] if ip.__class__ is Agg and ip.tag[0] == 'ipoct' else {'Ipv4Addr': 4, 'Ipv6Addr': 6}.get(mir.tname(ip.ty)) if ip.__class__ is Sym else None
            if k is not None:
                ip = as_ip(ip, 4 if k == 4 else 6)
            elif ip.__class__ is Seq and ip.n.is_const() and ip.n.c in (4, 16):
                ip = as_ip(Agg(('ipoct', ip.n.c), 0, (ip,)), 4 if ip.n.c == 4 else 6)
            elif mir.tname(ip.ty if ip.__class__ is Sym else ip.tag) != 'IpAddr':
                return None
            return [(st, Agg(('sock',), 0, (ip, v.f[1])))]
    if dn in ('IpAddr', 'Ipv4Addr', 'Ipv6Addr'):
        I = c.I
        if v.__class__ is Agg and v.tag[0] == 'ipoct':
            if dn == 'IpAddr':
                return [(st, Agg(('adt', dst[1]), 0 if v.tag[1] == 4 else 1, (v,)))]
            return [(st, v)]
        try:
            q = seq_of(I, st, v)
            n = 4 if dn == 'Ipv4Addr' else 16 if dn == 'Ipv6Addr' else (q.n.c if q.n.is_const() else None)
            if n in (4, 16):
                x = Agg(('ipoct', n), 0, (q,))
                return [(st, Agg(('adt', dst[1]), 0 if n == 4 else 1, (x,)) if dn == 'IpAddr' else x)]
        except Giveup:
            pass
        if v.__class__ is Sym and dn == 'IpAddr':
            return [(st, Agg(('adt', dst[1]), 0 if mir.tname(v.ty) == 'Ipv4Addr' else 1, (v,)))]
    return _convert(c, st, v, src, dst)


convert = convert2


# ------------------------------------------------------------------ panics and process-level functions
def m_panic(kind):
    def f(c, st, a):
        if c.t is not None and not unreachable_by(c, st):
            c.I.oblige(st, c.fr, c.b, kind, False)
        return []
    return f


def unreachable_by(c, st):
    return st.facts.dead


for _n in ('panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'panicking::panic_display', 'rt::panic_fmt', 'panicking::panic_explicit', 'panicking::unreachable_display',
           'panicking::panic_nounwind', 'panicking::panic_str_2015', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'panicking::assert_failed', 'panicking::panic_str',
           'panicking::assert_matches_failed', 'process::abort', 'process::exit', 'panicking::panic_bounds_check', 'panicking::panic_in_cleanup', 'panicking::unimplemented', 'rt::begin_panic_fmt', 'rt::panic_display', 'panicking::panic_2015', 'panicking::panic_any'):
    MODELS[_n] = m_panic('panic')


@model('intrinsics::unreachable', 'hint::unreachable_unchecked')
def m_unreach(c, st, a):
    c.I.oblige(st, c.fr, c.b, 'unreachable_unchecked', False)
    return []


@model('intrinsics::discriminant_value', 'mem::discriminant')
def m_disc_value(c, st, a):
    v = deep(c.I, st, a[0])
    d = c.I.discr(st, v)
    if d.__class__ is Disc and len(mir.ADTS[v.ty[1]]['variants']) <= 8:
        # what it is compared with later is mostly another variant: kept apart
        r = []
        for s2, k, w in c.I.variants_of(st, v):
            r += ret(s2, const(mir.ADTS[v.ty[1]]['variants'][k]['d']))
        return r
    return ret(st, d)


@model('panicking::unimplemented_default_msg')
def m_unimpl(c, st, a):
    return None


@model('rand::thread_rng', 'rngs::thread_rng')
def m_rng(c, st, a):
    return ret(st, Agg(('rng',), 0, ()))


@model('RngCore::fill_bytes', 'Rng::fill', 'Rng::fill_bytes')
def m_fill_bytes(c, st, a):
    I = c.I
    d = seq_at(I, st, a[1])
    b = None
    if I.tape is not None:
        k = st.ghost.get('_rp', 0)
        st.ghost['_rp'] = k + 1
        if k < len(I.tape) and I.tape[k][1] is None and st.facts.decide(eq(d.n, I.tape[k][2])) is True:
            b = I.tape[k][0]
    if b is None:
        b = fresh('random')
        st.emit('random', b, d.n)
    I.write(st, d.obj, d.path + (('sl', d.lo, d.n),), Seq((('s', b, ZERO, d.n),), d.n, U8))
    return ret(st, UNIT)


@model('Rng::gen_range', 'Rng::random_range')
def m_gen_range(c, st, a):
    I = c.I
    if len(a) == 3:
        lo, hi = a[1], a[2]
    else:
        lo, hi = range_bounds(I, st, a[1], None)
        if lo is None:
            return None
    if lo.__class__ is not Lin or hi is None:
        return None
    c.oblige(st, 'gen_range on an empty range', lt(lo, hi))
    if st.facts.dead:
        return []
    if I.tape is not None:
        # a reference definition makes the same choices as the code it is compared with
        k = st.ghost.get('_rp', 0)
        st.ghost['_rp'] = k + 1
        if k < len(I.tape):
            t, lo2, hi2 = I.tape[k]
            if lo2 is not None and st.facts.decide(eq(lo, lo2)) is True and st.facts.decide(eq(hi, hi2)) is True:
                return ret(st, atom(t))
    t = fresh('random', c.dty if c.dty and c.dty[0] == 'int' else USIZE)
    st.facts.add_le(lo - atom(t))
    st.facts.add_le(atom(t) + 1 - hi)
    st.emit('random', t, ONE, lo, hi)
    return ret(st, atom(t))


@model('Instant::now', 'SystemTime::now')
def m_now(c, st, a):
    # one call is short: its readings of the clock are one instant
    v = mkval(T('now', c.cn, ty=c.dty), c.dty) if c.dty is not None else UNIT
    st.emit('now', v)
    return ret(st, v)


# text searching: slices of self
def trim_model(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    lo, n = fresh('trim', USIZE), fresh('trimlen', USIZE)
    st.facts.add_le(atom(lo) + atom(n) - s.n)
    if 'start' in c.cn or 'left' in c.cn:
        st.facts.add_eq(atom(lo) + atom(n) - s.n)
    if 'end' in c.cn or 'right' in c.cn:
        st.facts.add_eq(atom(lo))
    if st.facts.dead:
        return []
    st.ghost[('bound', s.obj, s.path, s.lo + atom(lo))] = True
    I.note_havoc(c.cn)
    return ret(st, Slice(s.obj, s.path, s.lo + atom(lo), atom(n), s.st))


for _n in ('trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_ascii', 'trim_ascii_start', 'trim_ascii_end'):
    MODELS['str::' + _n] = trim_model
    MODELS['[T]::' + _n] = trim_model


def search_key(c, st, s, q, a):
    """the value in reach that an element compares with, in the order of elements, exactly as a search's function says, or None"""
    I = c.I
    i = fresh('bsprobe', USIZE)
    s0 = st.copy()
    s0.facts.add_le(-atom(i))
    s0.facts.add_le(atom(i) + 1 - q.n)
    if s0.facts.dead or not q.ety or q.ety[0] != 'adt':
        return None
    er = elem_ref(I, s0, s, atom(i))
    says = []
    for s1, v in I.call_value(s0, c.fr, c.b, a[-1], [er], None):
        if c.cn.endswith('by'):
            says += [(s2, o) for s2, o, _ in I.variants_of(s1, v)]
        else:
            says += cmp_vals(c, s1, v, a[1])
    cands = []
    env = I.read(st, a[-1].obj, a[-1].path) if a[-1].__class__ is Ref else a[-1]
    held = [st.objs.get(o) for o in list(st.objs) if o[0] == 'L' and o[1] == c.fr.fid]
    for w in (*(env.f if env.__class__ is Agg else ()), *held):
        for _ in range(3):
            if w.__class__ is Ref and w.obj in st.objs:
                w = I.read(st, w.obj, w.path)
        if w.__class__ in (Agg, Sym) and I.typeof(st, w) == q.ety and w not in cands:
            cands.append(w)
    for k in cands[:4]:
        if says and all(o2 == o for s1, o in says if not s1.facts.dead for s2, o2 in cmp_vals(c, s1.copy(), er, k) if not s2.facts.dead):
            return k
    return None


@model('[T]::binary_search', '[T]::binary_search_by', '[T]::binary_search_by_key')
def m_bsearch(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    q = I.slice_seq(st, s)
    arg = a[1]
    if not c.cn.endswith('search'):
        k = None
        try:
            k = search_key(c, st, s, q, a)
        except Giveup:
            pass
        if k is not None:
            c.cn = '[T]::binary_search'
            arg = k
    kt = I.vterm(st, deep(I, st, arg)) if c.cn.endswith('search') else ('fn', repr(arg))
    st.emit('bsearch', (s.obj, s.path), deep(I, st, arg), c.cn)
    if c.cn.endswith('search'):
        # the result is a function of the contents and of the key
        ks = (I.seqterm(st, q), kt)
        t, u, hit = T('bsfound', *ks, ty=USIZE), T('bsins', *ks, ty=USIZE), T('bshit', *ks, ty=('bool',))
    else:
        t, u, hit = fresh('bsfound', USIZE), fresh('bsins', USIZE), None
    outs = []
    if hit is not None:
        for s2, y in I.branch(st, hit):
            F = s2.facts
            F.add_le(-atom(t if y else u))
            F.add_le(atom(t) + 1 - q.n if y else atom(u) - q.n)
            if F.dead:
                continue
            s2.emit('bsfound' if y else 'bsmiss', (s.obj, s.path), atom(t if y else u), deep(I, s2, arg))
            outs.append((s2, (ok if y else err)(atom(t if y else u))))
        return outs
    s2 = st.copy()
    if s2.facts.add_le(atom(t) + 1 - q.n):
        s2.emit('bsfound', (s.obj, s.path), atom(t), deep(I, s2, arg))
        outs.append((s2, ok(atom(t))))
    st.facts.add_le(atom(u) - q.n)
    st.emit('bsmiss', (s.obj, s.path), atom(u), deep(I, st, arg))
    outs.append((st, err(atom(u))))
    if I.first_branch is None:
        I.first_branch = 'open'
    return outs


@model('Vec::drain', 'String::drain', 'Vec::split_off', 'Vec::dedup', 'Vec::retain_mut', 'Vec::splice')
def m_vec_misc(c, st, a):
    I = c.I
    r, q = vec_ref(I, st, a[0])
    if c.cn in ('Vec::drain', 'Vec::split_off', 'String::drain'):
        if c.cn == 'Vec::split_off':
            lo, hi = a[1], q.n
        else:
            lo, hi = range_bounds(I, st, a[1], q.n)
        if lo is None:
            return None
        if not c.oblige(st, 'drain range', band(leq(lo, hi), leq(hi, q.n))):
            return []
        mid = I.seq_sub(st, q, lo, hi - lo)
        x = I.seq_sub(st, q, ZERO, lo)
        y = I.seq_sub(st, q, hi, q.n - hi)
        if q.ov:
            return None
        # the stack order of what is left in front is unchanged
        wr(I, st, r, Seq(norm_segs(x.segs + y.segs), q.n - (hi - lo), q.ety))
        st.emit('drain', (r.obj, r.path), lo, hi)
        mid = Seq(mid.segs, hi - lo, q.ety, mid.ov)
        if c.cn == 'Vec::split_off':
            return ret(st, mid)
        return prel(c, st, '__viter', [mid])
    return None


@model('str::split', 'str::split_terminator', 'str::splitn', 'str::lines', 'str::split_whitespace', 'str::rsplit', 'str::rsplitn', '[T]::split', 'str::matches', 'str::match_indices')
def m_split(c, st, a):
    I = c.I
    s = seq_at(I, st, a[0])
    I.note_havoc(c.cn)
    n = T('len', fresh('split'), ty=LEN)
    return ret(st, Agg(('splititer',), 0, (s, atom(n), atom(fresh('cnt', USIZE)), a[1] if len(a) > 1 else UNIT)))


# ------------------------------------------------------------------ operators on integers behind references
_BINTR = {'BitXor': 'BitXor', 'BitAnd': 'BitAnd', 'BitOr': 'BitOr', 'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul', 'Div': 'Div', 'Rem': 'Rem', 'Shl': 'Shl', 'Shr': 'Shr'}


def int_behind(I, st, v):
    """-> (integer, its type) of an integer value or reference to one"""
    for _ in range(4):
        if v.__class__ is Lin:
            return v
        if v.__class__ in (bool, Term):
            return v
        if v.__class__ is Ref:
            v = I.read(st, v.obj, v.path)
            continue
        return None
    return None


def peel_ty(t):
    while t is not None and t[0] == 'ref':
        t = t[2]
    return t


def op_by_ref(op, assign):
    def f(c, st, a):
        I = c.I
        ty = peel_ty(c.selfty) if c.selfty is not None else None
        x = int_behind(I, st, a[0])
        y = int_behind(I, st, a[1])
        if x is None or y is None or ty is None or ty[0] not in ('int', 'bool'):
            return None
        if op in ('Add', 'Sub', 'Mul'):
            r, ovf = I.arith(st, op, x, y, ty, True)
            if not c.oblige(st, 'overflow-' + op, bnot(ovf) if ovf.__class__ is not bool else not ovf):
                return []
        elif op in ('Div', 'Rem'):
            if not c.oblige(st, 'division by zero', bnot(eq0(y))):
                return []
            r = I.bits(st, op, x, y, ty)
        elif op in ('Shl', 'Shr'):
            if not c.oblige(st, 'overflow-' + op, band(leq(0, y), lt(y, const(ty[2])))):
                return []
            r = I.bits(st, op, x, y, ty)
        else:
            r = I.binop(st, c.fr, op, x, y, ty)
        if assign:
            d = a[0]
            w = I.read(st, d.obj, d.path)
            while w.__class__ is Ref:
                d = w
                w = I.read(st, d.obj, d.path)
            I.write(st, d.obj, d.path, r)
            return ret(st, UNIT)
        return ret(st, r)
    return f


for _tr, _op in _BINTR.items():
    MODELS['%s::%s' % (_tr, _tr.lower())] = op_by_ref(_op, False)
    MODELS['%sAssign::%s_assign' % (_tr, _tr.lower())] = op_by_ref(_op, True)


@model('Not::not')
def m_not_op(c, st, a):
    I = c.I
    ty = peel_ty(c.selfty) if c.selfty is not None else None
    x = int_behind(I, st, a[0])
    if x is None or ty is None:
        return None
    if x.__class__ is not Lin:
        return ret(st, bnot(x))
    if ty[0] == 'int' and not ty[1]:
        return ret(st, const((1 << ty[2]) - 1) - x)
    if ty[0] == 'int':
        return ret(st, -x - 1)
    return None


# ------------------------------------------------------------------ SHA-1: an unknown but fixed function of the bytes fed to it
@model('Sha1::new')
def m_sha_new(c, st, a):
    return ret(st, Agg(('sha1',), 0, (Seq((), ZERO, U8),)))


def sha_seq(I, st, v):
    w = I.read(st, v.obj, v.path) if v.__class__ is Ref else v
    if w.__class__ is Agg and w.tag[0] in ('sha1', 'digest'):
        return w.f[0]
    return None


@model('Sha1::from')
def m_sha_from(c, st, a):
    return ret(st, Agg(('sha1',), 0, (seq_of(c.I, st, a[0]),)))


@model('Sha1::update')
def m_sha_update(c, st, a):
    I = c.I
    q = sha_seq(I, st, a[0])
    if q is None:
        return None
    try:
        x = seq_of(I, st, a[1])
    except Giveup:
        return None
    I.write(st, a[0].obj, a[0].path, Agg(('sha1',), 0, (I.seq_cat(st, q, x),)))
    return ret(st, UNIT)


@model('Sha1::reset')
def m_sha_reset(c, st, a):
    c.I.write(st, a[0].obj, a[0].path, Agg(('sha1',), 0, (Seq((), ZERO, U8),)))
    return ret(st, UNIT)


@model('Sha1::digest')
def m_sha_digest(c, st, a):
    q = sha_seq(c.I, st, a[0])
    if q is None:
        return None
    return ret(st, Agg(('digest',), 0, (q,)))


@model('Digest::bytes')
def m_digest_bytes(c, st, a):
    q = sha_seq(c.I, st, a[0])
    if q is None:
        return None
    t = T('sha1', c.I.seqterm(st, q))
    return ret(st, Seq((('s', t, ZERO, const(20)),), const(20), U8))


# ------------------------------------------------------------------ paths: the sequence of strings joined
def path_of(I, st, v):
    for _ in range(5):
        if v.__class__ is Ref:
            v = I.read(st, v.obj, v.path)
            continue
        if v.__class__ is Agg and v.tag[0] == 'pathbuf':
            return v.f[0]
        return None
    return None


@model('PathBuf::new', 'PathBuf::with_capacity')
def m_pb_new(c, st, a):
    return ret(st, Agg(('pathbuf',), 0, (Seq((), ZERO, ('other', 'component')),)))


def component(I, st, v):
    """the text of one path argument, as a value"""
    q = seq_of(I, st, v)
    return q


def path_push(c, st, cur, arg):
    I = c.I
    p = path_of(I, st, arg)
    if p is not None:
        return I.seq_cat(st, cur, p)
    q = component(I, st, arg)
    st.emit('component', q)
    return I.seq_cat(st, cur, Seq((('e', q),), ONE, cur.ety))


@model('PathBuf::push')
def m_pb_push(c, st, a):
    I = c.I
    cur = path_of(I, st, a[0])
    if cur is None or a[0].__class__ is not Ref:
        return None
    d = a[0]
    w = I.read(st, d.obj, d.path)
    while w.__class__ is Ref:
        d = w
        w = I.read(st, d.obj, d.path)
    try:
        new = path_push(c, st, cur, a[1])
    except Giveup:
        st.emit('component', a[1])
        new = I.seq_cat(st, cur, Seq((('e', mkval(fresh('component'), ('other', 'component'))),), ONE, cur.ety))
    I.write(st, d.obj, d.path, Agg(('pathbuf',), 0, (new,)))
    return ret(st, UNIT)


@model('Path::join')
def m_path_join(c, st, a):
    cur = path_of(c.I, st, a[0])
    if cur is None:
        return None
    return ret(st, Agg(('pathbuf',), 0, (path_push(c, st, cur, a[1]),)))


@model('Path::new')
def m_path_new(c, st, a):
    I = c.I
    p = path_of(I, st, a[0])
    if p is None:
        try:
            p = path_push(c, st, Seq((), ZERO, ('other', 'component')), a[0])
        except Giveup:
            return None
    return ret(st, tmp(I, st, Agg(('pathbuf',), 0, (p,))))


@model('PathBuf::as_path', 'Path::as_os_str', 'PathBuf::as_os_str', 'Path::to_path_buf', 'PathBuf::into_os_string', 'Path::as_path')
def m_path_same(c, st, a):
    p = path_of(c.I, st, a[0])
    if p is None:
        return None
    if c.cn.endswith(('to_path_buf', 'into_os_string')):
        return ret(st, Agg(('pathbuf',), 0, (p,)))
    return ret(st, a[0])


_osstr_len = MODELS['[T]::is_empty']


@model('OsStr::is_empty', 'OsString::is_empty')
def m_os_is_empty(c, st, a):
    p = path_of(c.I, st, a[0])
    if p is None:
        return None
    return ret(st, eq0(p.n))


@model('OsStr::len', 'OsString::len')
def m_os_len(c, st, a):
    return None


_deref0 = MODELS['Deref::deref']


@model('AsRef::as_ref', 'Borrow::borrow', 'Deref::deref')
def m_deref_path(c, st, a):
    if path_of(c.I, st, a[0]) is not None:
        return ret(st, a[0])
    return _deref0(c, st, a)


# ------------------------------------------------------------------ str::contains by what the pattern matches
_contains0 = MODELS['str::contains']


@model('str::contains', 'str::find_any_')
def m_contains(c, st, a):
    I = c.I
    p = a[1]
    pat = None
    if p.__class__ is Agg and p.tag[0] == 'closure' or p.__class__ is FnV or (p.__class__ is Ref and I.read(st, p.obj, p.path).__class__ is Agg and I.read(st, p.obj, p.path).tag[0] == 'closure'):
        fn = I.prog.prelude.get('str__contains_fn')
        return I.call_fn(st, fn, [a[0], p], {}, (c.b, 'contains'), c.fr, ('bool',), prel=True)
    chars = None
    if p.__class__ is Lin:
        chars = [p]
    else:
        try:
            q = seq_of(I, st, p)
        except Giveup:
            q = None
        if q is not None and all(g[0] in ('e', 'c') for g in q.segs):
            el = [g[1] for g in I.seq_explode(q)] if hasattr(I, 'seq_explode') else None
            isstr = p.__class__ is Slice and p.st
            if el is not None and (not isstr or len(el) == 1):
                chars = el
            if isstr and len(el or ()) == 0:
                return ret(st, True)
    if chars is not None and 1 <= len(chars) <= 8 and all(x.__class__ is Lin for x in chars):
        outs = [(st, False)]
        fn = I.prog.prelude.get('str__contains_ch')
        for k, ch in enumerate(chars):
            nxt = []
            for s, hit in outs:
                if hit is True:
                    nxt.append((s, hit))
                    continue
                byte = s.facts.decide(leq(ch, const(127))) is True
                nxt.extend(I.call_fn(s, I.prog.prelude['str__contains_byte'] if byte else fn, [a[0], ch], {}, (c.b, 'contains', k), c.fr, ('bool',), prel=True))
            outs = nxt
        return outs
    return _contains0(c, st, a)


# ------------------------------------------------------------------ durations of nothing
_default_of = default_of


def default_of(c, st, ty):
    if ty is not None and ty[0] == 'adt' and ADTS[ty[1]]['name'] == 'Duration':
        return [(st, mkval(T('duration', ZERO), ty))]
    return _default_of(c, st, ty)


def duration(unit):
    def f(c, st, a):
        if a and a[0] == ZERO:
            return ret(st, mkval(T('duration', ZERO), c.dty))
        return None
    return f


for _u in ('from_secs', 'from_millis', 'from_micros', 'from_nanos'):
    MODELS['Duration::' + _u] = duration(_u)


# ------------------------------------------------------------------ std::io errors, known by their kind
def io_error(kind, ty):
    return mkval(T('ioerror', ADTS[kind.tag[1]]['variants'][kind.var]['n']), ty)


@model('Error::new')
def m_io_error(c, st, a):
    if len(a) == 2 and a[0].__class__ is Agg and adtname(a[0]) == 'ErrorKind' and c.dty is not None:
        return ret(st, io_error(a[0], c.dty))
    return None


@model('Error::other')
def m_io_other(c, st, a):
    if c.dty is not None and mir.tname(c.dty) == 'Error':
        return ret(st, mkval(T('ioerror', 'Other'), c.dty))
    return None
