"""No announced length makes a parser ask for memory."""
from .lib import *
from ..values import Seq, Slice, Map, Agg

RULE = ('at every place where memory for several elements is asked for at once, on every path, the number of elements is at most the length of a sequence or '
        'table that exists there, or a constant; sequences grow otherwise only by copying from existing ones or element by element')
CONST = 1 << 16
TR = 'torrent_rs::'
FNS = ['bencode::value::Value::decode_with_limits', 'bencode::value_ref::ValueRef::decode_with_limits', 'bencode::value_ref::ValueRef::to_owned',
       TR + 'torrent::Torrent::parse', TR + 'magnet_uri::parse_magnet_uri', TR + 'str_utl::base32_decode', TR + 'str_utl::unescape_bytes', TR + 'str_utl::split_string',
       'dht::state::DhtState::read', 'dht::settings::DhtSettings::read', 'dht::msg::verify_message_impl']

# decoded separately (it is in the list itself)
OPAQUE = {TR + 'magnet_uri::parse_magnet_uri': {TR + 'str_utl::base32_decode'}}


def lengths(I, st, v, seen, depth=0):
    if v.__class__ in (Seq, Slice, Map):
        yield v.n
    elif v.__class__ is Agg and depth < 4:
        for x in v.f:
            yield from lengths(I, st, x, seen, depth + 1)


def check(c, got):
    def f(I, st, fr, b, n):
        key, fn, span, chain = I.oblkey(fr, b, 'reserve')
        ns = n if isinstance(n, list) else [n]
        good = any(st.facts.decide(leq(n, const(CONST))) is True for n in ns)
        if not good:
            for o in list(st.objs):
                if any(st.facts.decide(leq(n, m)) is True for m in lengths(I, st, st.objs[o], set()) for n in ns):
                    good = True
                    break
        n = n if not isinstance(n, list) else 'all that an iterator announces' if not n else n[0]
        g = got.setdefault(key, [fn, span, True, n])
        if not good:
            g[2], g[3] = False, n
    return f


def reserve(c):
    for p in FNS:
        got = {}
        r = c.run(p, opaque=OPAQUE.get(p, ()), opts=dict(merge=400, alloc=check(c, got)))
        if r is None:
            continue
        c.ok('reached:%s' % p, len(r.outs) > 0, p, r.fn.span, 'no path through the parser was followed')
        for key, (fn, span, good, n) in sorted(got.items(), key=str):
            c.ok('reserve:%s:%s' % (r.path, clean(fn)), good, fn, span, 'room for %s elements is asked for at once, which nothing that exists bounds' % (n,))


RULES = [reserve]
