"""Check runner: python3 -m sa <ID>.

Dumps the MIR of /repo's current tree, runs the rules of one property on it and writes the
evidence file.  Exit 0 when every obligation is discharged (or is a listed known finding),
exit 1 with a VIOLATION line otherwise."""
import ctypes
import importlib
import json
import os
import re
import resource
import subprocess
import sys
import threading
import time
import traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DUMP = os.path.join(V, '.build', 'dump')
CRATES = ('bencode', 'common', 'dht', 'torrent_rs')
KNOWN = os.path.join(V, 'known_findings.txt')


from .mir import untyped as clean


class Missing(Exception):
    pass


class TimeUp(BaseException):
    """the budget of the whole check is used up"""


BUDGET = 600


def deadline():
    """raise TimeUp in this thread when the budget is used up (again, if something swallows it)"""
    tid = threading.get_ident()

    def late():
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(TimeUp))
    t = threading.Timer(int(os.environ.get('SA_BUDGET', BUDGET)), late)
    t.daemon = True
    t.start()
    return t


def bounded():
    """a blow-up is a failed check, not a dead machine"""
    lim = 20 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.viols = []
        self.oblig = 0
        self.disch = 0
        self.groups = {}
        self.functions = set()
        self.paths = 0
        self.callsites = 0
        self.blocks = set()
        self.loops = 0
        self.steps = 0
        self.samples = []
        self.assumptions = []
        self.unmodelled = {}
        self.P = None
        self.runs = 0

    # -------------------------------------------------------------- program
    def load(self, spec=True):
        from . import mir
        P = mir.Program()
        P.load(os.path.join(DUMP, 'prelude.json'), prelude=True)
        for c in CRATES:
            P.load(os.path.join(DUMP, c + '.json'))
        if spec:
            P.load(os.path.join(DUMP, 'spec.json'), spec=True)
        self.P = P
        self.byname = {}
        for f in P.fns.values():
            if f.crate not in ('prelude', 'spec'):
                self.byname.setdefault(clean(f.path), f)

    def fn(self, path):
        f = self.byname.get(path)
        if f is None:
            for p, g in self.byname.items():
                if p.endswith('::' + path) or p.endswith(path) and path.startswith('<'):
                    return g
            m = re.match(r'<(.+) as (.+)>::(\w+)$', path)
            for g in self.P.fns.values() if m else ():
                # the trait implemented in another module than the type's
                from . import mir
                if g.trait and g.crate not in ('prelude', 'spec') and g.name == m.group(3) and g.selfty and g.selfty[0] == 'adt' \
                        and mir.untyped(mir.ADTS[g.selfty[1]]['path']) == m.group(1) and mir.short(g.trait) == mir.short(m.group(2)):
                    return g
            raise Missing(path)
        return f

    def has(self, path):
        try:
            self.fn(path)
            return True
        except Missing:
            return False

    # -------------------------------------------------------------- running
    def run(self, path, args=None, opaque=(), opts=None, genv=None, setup=None, hooks=None):
        """abstractly interpret the function on arbitrary arguments; -> Res or None"""
        from . import interp, loops, models
        f = self.fn(path) if isinstance(path, str) else path
        self.functions.add(f.path)
        o = {'steps': 600000}
        o.update(opts or {})
        I = interp.Interp(self.P, opaque=opaque, opts=o)
        if hooks:
            I.hooks.update(hooks)
        self.runs += 1
        try:
            st, vals = I.start(f, args, genv)
            if setup:
                setup(I, st, vals)
            outs = I.run(f, state=st, vals=vals, genv=genv)
        except interp.Giveup as e:
            loc = getattr(e, 'loc', None)
            self.fail('undecidable:%s' % clean(f.path), f.path, loc[1] if loc else None,
                      'the analysis cannot represent %s: %s' % (f.path, e))
            self.account(I)
            return None
        self.account(I)
        self.paths += len(outs)
        r = Res()
        r.I, r.outs, r.fn, r.args, r.path = I, outs, f, vals, clean(f.path)
        return r

    def account(self, I):
        self.steps += I.steps
        self.loops += len(I.loops)
        self.blocks |= I.visited_blocks
        for k, _ in I.visited_blocks:
            g = self.P.fns.get(k)
            if g is not None and g.crate != 'prelude':
                self.functions.add(g.path)
        for k, n in I.havocs.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n

    # -------------------------------------------------------------- obligations
    def ok(self, key, cond, fn='', span=None, msg=''):
        """one proof obligation"""
        self.oblig += 1
        g = self.groups.setdefault(key, [0, 0])
        g[0] += 1
        if cond is True:
            self.disch += 1
            g[1] += 1
            return True
        self.viol(key, fn, span, msg)
        return False

    def viol(self, key, fn, span, msg):
        for v in self.viols:
            if v['key'] == key:
                v['count'] += 1
                return
        self.viols.append({'key': key, 'fn': clean(fn) if fn else '', 'span': span, 'msg': msg[:1500], 'count': 1})

    def fail(self, key, fn, span, msg):
        self.oblig += 1
        self.viol(key, fn, span, msg)

    def floor(self, what, n, least):
        """an anchor that must be present: fewer than `least` means the rule looked at nothing"""
        self.ok('anchor:%s' % what, n >= least, '', None, 'expected at least %d %s in the source, found %d' % (least, what, n))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:400])

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


class Res:
    __slots__ = ('I', 'outs', 'fn', 'args', 'path')


def known(pid):
    """listed findings: {key: text}"""
    r = {}
    try:
        for l in open(KNOWN):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return r


def dump():
    p = subprocess.run([os.path.join(V, 'dump.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    c = Ctx(pid, tier)
    mod = importlib.import_module('sa.rules.' + pid.lower())
    try:
        rc, out = (0, '') if os.environ.get('SA_NODUMP') else dump()
        if rc:
            c.fail('build', '', None, 'the tree does not compile: ' + out[-800:])
        else:
            if not getattr(mod, 'RAW', False):
                c.load()
            bounded()
            timer = deadline()
            for rule in mod.RULES:
                try:
                    rule(c)
                except Missing as e:
                    c.fail('anchor:%s' % e, '', None, 'the function %s, which the property is about, is not in the source' % e)
                except RecursionError:
                    raise
                except Exception:
                    # a rule that meets a shape it cannot read has not established the property
                    tb = traceback.format_exc()
                    c.fail('undecidable:%s' % rule.__name__, '', None, 'rule %s met a construct it cannot read: %s' % (rule.__name__, tb[-900:].replace('\n',' | ')))
            timer.cancel()
    except TimeUp:
        c.fail('budget', '', None, 'the property was not established within %s s' % BUDGET)
    except Exception:
        c.fail('internal', '', None, traceback.format_exc()[-1500:])
    kn = known(pid)
    new = [v for v in c.viols if v['key'] not in kn]
    for v in c.viols:
        if v['key'] in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[v['key']]))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': c.oblig, 'discharged': c.disch,
            'checker_cmd': 'python3 -m sa %s' % pid,
            'trusted_base': getattr(mod, 'TRUST', None) or ['rustc MIR construction (nightly, -Zmir-opt-level=0 dump through rustc_private)',
                             'the abstract interpreter in /verif/sa and its models of the standard library',
                             'reference definitions of library functions in /verif/prelude'],
            'technique': getattr(mod, 'TECH', 'trace-partitioned abstract interpretation of MIR'),
            'rule': mod.RULE,
            'functions_analysed': sorted(clean(x) for x in c.functions),
            'functions': len(c.functions),
            'abstract_runs': c.runs, 'paths': c.paths, 'basic_blocks': len(c.blocks),
            'loops_generalised': c.loops, 'abstract_steps': c.steps,
            'obligation_groups': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(c.groups.items())},
            'samples': c.samples,
            'library_calls_assumed': c.unmodelled,
        },
        'assumptions': c.assumptions + list(getattr(mod, 'ASSUMES', [])),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not new:
        vp = os.path.join(V, 'evidence', pid + '.violations.json')
        if os.path.exists(vp):
            os.unlink(vp)
        print('OK property=%s obligations=%d discharged=%d functions=%d paths=%d %.1fs' % (pid, c.oblig, c.disch, len(c.functions), c.paths, time.time() - t0))
        return 0
    vp = os.path.join(V, 'evidence', pid + '.violations.json')
    with open(vp, 'w') as f:
        json.dump(new, f, indent=1)
    for v in new[:20]:
        print('  %s at %s %s: %s' % (v['key'], v['fn'], v['span'] or '', v['msg'][:600]))
    print('VIOLATION property=%s replay=%s' % (pid, vp))
    return 1
