"""The libraries have no effects besides their results."""
from .raw import Raw, adts
from ..check import clean
import re

RAW = True
TECH = 'effect analysis over the call graph of the MIR'
TRUST = ['rustc MIR construction and name resolution', 'the table of library functions by effect in this file']
RULE = ('every callee and every function value of every body of the four libraries is looked up in a table of library functions by the effect they have; '
        'effects are then propagated over the call graph (closures, trait implementations reached through generic code, and dynamic calls included)')
ASSUMES = ['the crates sha1, url, form_urlencoded, percent_encoding, bitflags, idna and the parts of core, alloc and std in the table behave as documented',
           'reading and writing through a reader, writer, iterator or closure the caller passed in is an effect of the caller']

PURE_CRATES = {'core', 'alloc', 'sha1', 'sha1_smol', 'url', 'form_urlencoded', 'percent_encoding', 'bitflags', 'idna', 'thiserror', 'derive_new', 'smart_default'}
STD_PURE = {'collections', 'f32', 'f64', 'ffi', 'rt', 'hash', 'error', 'ascii', 'panic', 'panicking', 'sync', 'keyword', 'borrow', 'cell', 'primitive',
            'num', 'vec', 'string', 'boxed', 'rc', 'fmt', 'str', 'slice', 'iter', 'option', 'result', 'cmp', 'ops', 'convert', 'clone', 'default', 'mem', 'ptr', 'array',
            'char', 'any', 'marker', 'pin', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
IO_BAD = {'stdin', 'stdout', 'stderr', '_print', '_eprint', 'Stdin', 'Stdout', 'Stderr', 'StdinLock', 'StdoutLock', 'StderrLock', 'StdoutRaw', 'StderrRaw', 'last_os_error'}
NET_BAD = {'TcpStream', 'TcpListener', 'UdpSocket', 'ToSocketAddrs', 'to_socket_addrs'}
PATH_BAD = {'exists', 'is_file', 'is_dir', 'is_symlink', 'metadata', 'canonicalize', 'read_dir', 'read_link', 'symlink_metadata', 'try_exists', 'absolute'}
HASH_ITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if', 'union', 'intersection',
             'difference', 'symmetric_difference', 'next', 'fmt'}
# effects a module needs for what it is there for
MAY = {
    'common::random': {'random'},
    'common::ed25519': {'random'},
    'dht::storage': {'clock', 'random', 'hash order'},
    'torrent_rs::params': {'clock'},
    'torrent_rs::magnet_uri': {'clock'},
}
LASTING = {'clock', 'random', 'hash order', 'address'}


def effect(path, crate):
    """the effect of a library function: None when it has none"""
    ws = re.findall(r'\w+', path)
    s = set(ws)
    if crate.startswith('rand') or 'RandomState' in s or crate in ('getrandom', 'fastrand', 'uuid'):
        return 'random'
    if 'new_pointer' in s or 'addr' in s and 'ptr' in s or 'expose_provenance' in s or 'expose_addr' in s or 'addr_eq' in s:
        return 'address'
    if crate in ('core', 'alloc'):
        return None
    if crate in PURE_CRATES:
        return 'look-up of a host' if 'socket_addrs' in s else None
    if crate == 'std':
        m = re.search(r'std::(\w+)', path)
        mod = m.group(1) if m else ''
        if 'collections' in s or 'HashMap' in s or 'HashSet' in s:
            return 'hash order' if ('HashMap' in s or 'HashSet' in s or 'hash_map' in s or 'hash_set' in s or 'hash' in s) and (ws[-1] in HASH_ITER) else None
        if mod == 'time':
            return 'clock' if ws[-1] in ('now', 'elapsed') else None
        if mod == 'io':
            return 'standard streams' if s & IO_BAD else None
        if mod == 'net':
            return 'network' if s & NET_BAD else None
        if mod == 'path':
            return 'file system' if s & PATH_BAD else None
        if mod == 'fs' or mod == 'os':
            return 'file system'
        if mod == 'env':
            return 'environment'
        if mod == 'process':
            return 'process'
        if mod == 'thread':
            return 'threads'
        if mod in STD_PURE:
            return None
        return 'unknown library function'
    return 'unknown library %s' % crate


def module(path, mods):
    p = re.sub(r'^<(impl )?', '', path)
    m = re.match(r'[\w:]+', p)
    p = m.group(0) if m else p
    best = ''
    for x in mods:
        if (p == x or p.startswith(x + '::')) and len(x) > len(best):
            best = x
    return best


def effects(c):
    R = Raw()
    direct = {}
    sites = 0
    for b in R.bodies.values():
        c.functions.add(b.path)
        e = direct[b.key] = {}
        for x in b.callees:
            sites += 1
            if x.path is None or x.key in R.bodies:
                continue
            if not x.resolved and x.trait and x.trait.split('::')[0] not in ('rand', 'rand_core'):
                # a method of an object the caller chose
                continue
            w = effect(x.path, x.crate)
            c.ok('effects:%s' % b.path, w is None or w in LASTING, b.path, x.span, '%s calls %s: %s' % (b.path, clean(x.path), w))
            if w in LASTING:
                e.setdefault(w, clean(x.path))
        for o in b.ops:
            if o[0].startswith('thread local') or o[0].startswith('mutable static'):
                c.ok('effects:%s' % b.path, False, b.path, o[1], '%s uses a %s' % (b.path, o[0]))
            if o[0] == 'address of a pointer':
                e['address'] = 'a cast of a pointer to an integer'
    c.callsites = sites
    c.floor('bodies of the libraries', len(R.bodies), 300)
    c.floor('call sites', sites, 1500)
    for s in R.statics:
        lazy = s['ty'].get('p', '').endswith('LazyLock')
        c.ok('static:%s' % clean(s['path']), not s['mut'] and (s['freeze'] or lazy), s['path'], s['span'],
             'the static %s can change while the program runs' % clean(s['path']))
    c.ok('foreign', not R.foreign, '', R.foreign[0] if R.foreign else None, 'the libraries declare foreign code')
    # results depend on the arguments only
    total = {k: set(R.succ(R.bodies[k])) for k in R.bodies}
    pred = {}
    for k, v in total.items():
        for x in v:
            pred.setdefault(x, set()).add(k)

    def may(k, w, deep=0):
        """module and callers of the body are there to use the effect"""
        b = R.bodies[k]
        for p in (b.path, re.sub(r'^.*? for ', '', b.path)):
            if w in MAY.get(module(p, MAY), ()):
                return True
        # a function without arguments only stands for the effect
        return b.f['argc'] == 0 and deep < 5 and bool(pred.get(k)) and all(may(x, w, deep + 1) for x in pred[k])
    for k, b in sorted(R.bodies.items(), key=lambda kv: kv[1].path):
        # shortest way to each effect
        seen, todo = {k: None}, [k]
        found = {}
        while todo:
            nxt = []
            for x in todo:
                for w, p in direct[x].items():
                    if w not in found:
                        way = [p]
                        y = x
                        while y is not None:
                            way.append(R.bodies[y].path)
                            y = seen[y]
                        found[w] = ' <- '.join(way)
                for y in sorted(total[x]):
                    if y not in seen:
                        seen[y] = x
                        nxt.append(y)
            todo = nxt
        for w in sorted(LASTING):
            c.ok('depends:%s:%s' % (b.path, w), w not in found or may(k, w), b.path, b.span, 'the result depends on the %s: %s' % (w, found.get(w)))
    c.sample('%d bodies, %d call sites, %d statics' % (len(R.bodies), sites, len(R.statics)))
    c.sample('direct: %s' % sorted({(R.bodies[k].path, w, p) for k, e in direct.items() for w, p in e.items()})[:8])
    used = {w for e in direct.values() for w in e}
    c.floor('uses of the clock and of random numbers', len(used & {'clock', 'random'}), 2)


RULES = [effects]
