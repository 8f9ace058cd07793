"""Bencode decoding is total."""
from .lib import *
from . import rec

RULE = ('every bounds check, slice, unwrap, arithmetic operation, allocation size and explicit panic reachable from the decoders is an '
        'obligation discharged over all inputs; every loop has a lexicographic ranking over its loop variables')
FNS = ['bencode::value::Value::decode', 'bencode::value::Value::decode_with_limits',
       'bencode::value_ref::ValueRef::decode', 'bencode::value_ref::ValueRef::decode_with_limits',
       '<bencode::value::Value as std::str::FromStr>::from_str']


def total(c):
    for p in FNS:
        r = c.run(p)
        if r is None:
            continue
        panic_free(c, r)
        terminates(c, r)
        c.floor('outcomes of %s' % p, len(r.outs), 2)
        c.floor('obligations of %s' % p, len(r.I.obls), 5)
        c.floor('loops of %s' % p, len(r.I.loops), 2)


def depth(c):
    """the stack needed does not follow the nesting of the input"""
    roots = [f for p in FNS for f in c.P.fns.values() if f.path == p and f.crate == 'bencode']
    bad, n = rec.cycles(c.P, roots)
    c.floor('functions reachable from the decoders', n, 8)
    c.ok('recursion:calls', not bad, bad[0].path if bad else None, bad[0].span if bad else None, 'decoding calls itself, as deep as the input is nested: ' + ', '.join(sorted(f.path for f in bad)))
    ts = [(k, a['path']) for k, a in mir.ADTS.items() if a['path'].split('<')[0] in ('bencode::value::Value', 'bencode::value_ref::ValueRef')]
    c.floor('value types', len(ts), 2)
    for k, p in ts:
        c.ok('recursion:drop:%s' % p, not rec.drops_itself(k) or rec.has_drop(c.P, k), p, None, 'dropping a value recurses as deep as it is nested, and decoding without a depth limit, even when it fails, can drop one')


RULES = [total, depth]
