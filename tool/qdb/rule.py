"""Obligations, violations and evidence for one property."""
import json, os, time
from .facts import AnalysisBroken, Program, walk, base_type
from .engine import Engine, match, last_field, loc_fields, loc_root, TooComplex, Path, Ev
from .values import *

RULES = {}          # property id -> list of (name, description, function)


def rule(pid, name, desc):
    def deco(fn):
        RULES.setdefault(pid, []).append((name, desc, fn))
        return fn
    return deco


class Violation:
    def __init__(self, rule, site, msg, detail=None):
        self.rule = rule
        self.site = site       # stable identity: function + construct, no line numbers
        self.msg = msg
        self.detail = detail

    def ident(self):
        return '%s|%s' % (self.rule, self.site)


class Ctx:
    def __init__(self, prog, pid):
        self.p = prog
        self.pid = pid
        self.rulename = ''
        self.obligations = 0
        self.discharged = 0
        self.perrule = {}
        self.violations = []
        self.functions = set()
        self.npaths = 0
        self.sites = set()
        self.samples = []
        self._cache = {}
        self.assumptions = []

    # ---- running the dataflow
    def engine(self, **kw):
        return Engine(self.p, **kw)

    def fn(self, name, nparams=None, pred=None):
        f = self.p.one(name, nparams, pred)
        return f

    def paths(self, f, nparams=None, pred=None, **kw):
        if isinstance(f, str):
            f = self.fn(f, nparams, pred)
        k = (f['key'], repr(sorted(kw.items(), key=lambda x: x[0])))
        r = self._cache.get(k)
        if r is None:
            kw = dict(kw)
            setup = kw.pop('setup', None)
            e = Engine(self.p, **kw)
            r = e.run(f, setup=setup)
            self._cache[k] = r
            self.npaths += len(r)
            self.functions.add(f['key'].split('(')[0])
            for p in r:
                for ev in p.events:
                    if ev.fn:
                        self.functions.add(ev.fn.split('(')[0])
        if not r:
            raise AnalysisBroken('no path through ' + f['key'])
        return r

    # ---- obligations
    def ob(self, ok, site, msg, where=None, path=None):
        """one obligation; site identifies the construct, where is file:line"""
        self.obligations += 1
        d = self.perrule.setdefault(self.rulename, [0, 0])
        d[0] += 1
        if where:
            self.sites.add(str(where))
        if ok:
            self.discharged += 1
            d[1] += 1
            if len(self.samples) < 400:
                self.samples.append('%s: %s%s: %s' % (self.rulename, site, ' at ' + str(where) if where else '', msg))
            return True
        for v in self.violations:
            if v.rule == self.rulename and v.site == site and v.msg == msg:
                return False
        det = ''
        if where:
            det += 'at %s\n' % where
        if path is not None:
            det += path.describe(80)
        self.violations.append(Violation(self.rulename, site, msg, det))
        return False

    def need(self, cond, what):
        """an anchor the analysis depends on"""
        if not cond:
            raise AnalysisBroken('%s: %s' % (self.rulename, what))

    def holds(self, ev, t, site, msg, path=None):
        """the facts at an event imply t"""
        return self.ob(ev.facts.entails(t), site, msg, ev.where(), path)


# ---- value builders
def this(f):
    """value of a member of the entry object on entry"""
    return ('init', ('f', ('d', ('this',)), f))


def thisloc(f):
    return ('f', ('d', ('this',)), f)


def P(path_or_fn, i):
    f = path_or_fn.entry if isinstance(path_or_fn, Path) else path_or_fn
    p = f['params'][i]
    return ('p', p['n'] or 'arg%d' % i, i)


NOTHING = ('absent',)      # stands for a value that is not there: equal to nothing known


def eq(a, b):
    a, b = a or NOTHING, b or NOTHING
    return truth(('op', '==', a, b))


def ne(a, b):
    a, b = a or NOTHING, b or NOTHING
    return truth(('op', '!=', a, b))


def lt(a, b):
    a, b = a or NOTHING, b or NOTHING
    return truth(('op', '<', a, b))


def le(a, b):
    a, b = a or NOTHING, b or NOTHING
    return truth(('op', '<=', a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def AND(*ts):
    r = True
    for t in ts:
        if t is False or r is False:
            return False
        if t is True:
            continue
        r = t if r is True else ('and', r, t)
    return r


def OR(*ts):
    return tneg(AND(*[tneg(t) for t in ts]))


def muts(v):
    """the chain of recorded mutations of a container value, oldest first: [(method, args)], base"""
    out = []
    while isinstance(v, tuple) and v and v[0] == 'mut':
        out.append((v[1], v[3]))
        v = v[2]
    out.reverse()
    return out, v


def is_call(v, *names):
    return isinstance(v, tuple) and len(v) > 1 and v[0] == 'call' and match(v[1], names)


def is_ret(v, *names):
    return isinstance(v, tuple) and len(v) > 2 and v[0] == 'ret' and match(v[2], names)


def size(v):
    v = v or NOTHING
    if v[0] == 's':
        return C(len(v[1]))
    return ('call', 'size', v)


def short(name):
    return name.split('(')[0].replace('quarkdb::', '')
