"""Values can be moved to and shared with other threads."""
from .raw import Raw
from ..check import clean

RAW = True
TECH = "trait obligations decided by the compiler's trait solver"
TRUST = ['the trait solver of rustc']
RULE = ("the compiler's trait solver is asked, for every type of the four libraries, whether it is Send and Sync; "
        'implementations of the two traits by hand (which the solver would believe) are obligations of their own')
ASSUMES = ['the types of the standard library and of the dependencies implement Send and Sync soundly']


def types(c):
    R = Raw()
    n = 0
    for a in R.adts:
        if not a['pub']:
            continue
        p = clean(a['path'])
        if a['params']:
            # holds whenever the parameters are Send and Sync themselves: decided for the types they are used with
            c.sample('%s has type parameters' % p)
            continue
        n += 1
        c.functions.add(p)
        c.ok('send:%s' % p, a['send'], p, a['span'], 'the type %s cannot be moved to another thread' % p)
        c.ok('sync:%s' % p, a['sync'], p, a['span'], 'the type %s cannot be shared between threads' % p)
    c.floor('public types', n, 25)
    for i in R.impls:
        if clean(i['trait']).rsplit('::', 1)[-1] in ('Send', 'Sync'):
            t = i['T'][i['self']]
            c.ok('by hand:%s' % clean(t.get('p', '?')), False, clean(t.get('p', '?')), None,
                 'the type %s implements %s by hand: what the compiler would derive is not what is claimed' % (clean(t.get('p', '?')), clean(i['trait'])))
    c.callsites = n
    c.sample('%d public types, %d implementations of traits' % (n, len(R.impls)))


RULES = [types]
