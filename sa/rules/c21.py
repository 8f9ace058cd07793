"""Saving, reading and defaults of the DHT settings."""
from .lib import *
from ..equiv import equiv, focus_on
from ..terms import show
from ..values import *
from .. import mir
S = 'dht::settings::DhtSettings'
RULE = ('Default, save and read are compared with reference definitions that list every setting with its key, kind and default; '
        'read and save are compared setting by setting, the paths that differ in how that setting is found being kept apart')


def names(c):
    for k, a in mir.ADTS.items():
        if a.get('path') == S:
            return [f[0] for f in a['variants'][0]['f']]
    return []


def default(c):
    equiv(c, '<%s as std::default::Default>::default' % S, 'dht::set::default')
    equiv(c, '<dht::settings::Settings as std::default::Default>::default', 'dht::set::session')


def reading(c):
    ns = names(c)
    c.floor('settings', len(ns), 21)
    for i, n in enumerate(ns):
        equiv(c, '%s::read' % S, 'dht::set::read', opts=dict(merge=1, focus=focus_on("'%s'" % n, '*node')), key='%s::read %s' % (S, n), proj=lambda I, st, v: I.expand(st, v).f[i])


def entry(n):
    def f(I, st, v):
        m = I.expand(st, v)
        if m.var != 3:
            return m
        m = m.f[0]
        for k, p, x in m.ent:
            if keyshow(k) == repr(n.encode()):
                return Agg(('tuple',), 0, (p, x))
        return Agg(('tuple',), 0, (False,))
    return f


def saving(c):
    ns = names(c)
    for i, n in enumerate(ns):
        equiv(c, '%s::save' % S, 'dht::set::save', opts=dict(merge=1, focus=focus_on('*self.%d' % i)), key='%s::save %s' % (S, n), proj=entry(n))


RULES = [default, reading, saving]
