"""Compact addresses."""
from .lib import *
from ..equiv import equiv

RULE = ('writers and readers of compact addresses are compared path by path with reference definitions that place every octet; '
        'a reader that succeeds must have consumed exactly the bytes of the address, and it fails exactly when too few are left')
D = 'dht::detail::'


def styped(c, path, i):
    return c.P.specs['spec::' + path].ltys[i][2]


def writing(c):
    g = {'W': styped(c, 'dht::det::write_address', 1)}
    for m in ('write_address', 'write_socket_addr'):
        r = equiv(c, D + m, 'dht::det::' + m, genv=g)
        terminates(c, r)


def reading(c):
    g = {'R': styped(c, 'dht::det::ip4', 1)}
    for m, s in (('read_v4_address', 'ip4'), ('read_v6_address', 'ip6'), ('read_v4_socket_address', 'sock4'), ('read_v6_socket_address', 'sock6')):
        where = []

        def setup(I, st, vals):
            where[:] = [vals[0]]

        def proj(I, st, v):
            good = v.var == (0 if mir.ADTS[v.tag[1]]['name'] == 'Result' else 1)
            if not good:
                return Agg(('tuple',), 0, (False,))
            return Agg(('tuple',), 0, (True, v.f[0], I.deref(st, where[0])))
        r = equiv(c, D + m, 'dht::det::' + s, genv=g, setup=setup, proj=proj, post=False, least=2)
        terminates(c, r)


def search(c):
    r = equiv(c, D + 'lower_bound', 'dht::det::first_smaller', genv={'T': I64})
    terminates(c, r)


def failing(c):
    write_failures(c, D + 'write_address', 4)
    write_failures(c, D + 'write_socket_addr', 5)


RULES = [writing, failing, reading, search]
