"""Clock, expiration queue, versioned-hash revisions, consistency scan, descriptor rebuild: S08, S10, S11, S13, S14."""
from qdb.common import *
from rules.r_dispatch import fld, emp, rets, anyof

TK = 'quarkdb::Timekeeper::'
EE = 'quarkdb::ExpirationEventCache::'
VR = 'quarkdb::VersionedHashRevision::'
VT = 'quarkdb::VersionedHashRevisionTracker::'
CS = 'quarkdb::ConsistencyScanner::'
SM = 'quarkdb::StateMachine::'
KD = 'quarkdb::KeyDescriptor::'
FIRST, SECOND = 'std::pair::first', 'std::pair::second'


def nows(p):
    return [e for e in p.events if e.kind == 'call' and e.name.endswith('steady_clock::now')]


def one_section(p, mtx):
    """the lock is taken exactly once on this path"""
    return len([e for e in p.events if e.kind == 'acq' and last_field(e.loc) == mtx]) == 1


def under_lock(cx, cls, fields, mtx, skip=()):
    """every access of the fields in any method of the class happens under the lock"""
    n = 0
    for f in cx.p.methods(cls):
        nm = f['name'].split('::')[-1]
        if f.get('ctor') or nm in ('<dtor>',) or nm.startswith('~') or nm in skip:
            continue
        if f.get('acc') == 'private':
            continue
        for p in cx.paths(f, reads=True, extra_inline=('~' + cls.split('::')[-1] + '::',)):
            for e in p.events:
                if e.kind in ('read', 'write', 'app') and set(loc_fields(e.loc)) & set(fields):
                    n += 1
                    cx.ob(held(e, mtx, 'w' if e.kind != 'read' else None), short(f['name']), 'touches %s only under its lock' % loc_fields(e.loc)[-1].split('::')[-1], e.where(), p)
    cx.ob(n > 0, short(cls), 'guards its state')


# ---------------------------------------------------------------- S08
@rule('S08', 'timekeeper', 'the static clock never goes back, the dynamic one is the static one plus the time since it was set')
def s08_timekeeper(cx):
    st, an = TK + 'staticClock', TK + 'anchorPoint'
    under_lock(cx, 'quarkdb::Timekeeper', (st, an), TK + 'mtx')
    for nm, i in (('synchronize', 0), ('reset', 0), ('Timekeeper', 0)):
        f = cx.fn(TK + nm)
        s = 'Timekeeper::' + nm
        n = 0
        for p in cx.paths(f):
            w = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(st)]
            a = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(an)]
            if p.outcome != 'return':
                cx.ob(not w and not [x for x in a if not f.get('ctor')], s, 'a refused value changes nothing', None, p)
                cx.ob(nm == 'synchronize' and p.facts.entails(lt(P(f, 0), this(st))), s, 'refuses only going back', None, p)
                continue
            n += 1
            cx.ob(bool(w) and w[-1].val == P(f, 0), s, 'records the given value', None, p)
            cx.ob(bool(a) and a[-1].val in [result(x) for x in nows(p)], s, 'the time since is measured from now', None, p)
            if nm == 'synchronize':
                cx.ob(p.facts.entails(ge(P(f, 0), this(st))), s, 'never goes back', None, p)
            if not f.get('ctor'):
                cx.ob(one_section(p, TK + 'mtx'), s, 'changes value and origin together', None, p)
        cx.ob(n > 0, s, 'accepts')
    f = cx.fn(TK + 'getDynamicTime')
    s = 'getDynamicTime'
    for p in cx.paths(f):
        good = False
        for x in nows(p):
            el = sub(result(x), this(an))
            rest = sub(p.val, this(st)) if p.val is not None else NOTHING
            if is_call(rest, '~count$') and contains_term(rest, el):
                good = True
                cx.ob(held(x, TK + 'mtx'), s, 'the present is not older than the origin it is compared with', x.where(), p)
                cx.ob('milliseconds' in f['ret'] or True, s, 'in milliseconds', None, p)
        cx.ob(good, s, 'is the recorded value plus the time since it was recorded', f['file'], p)
        cx.ob(one_section(p, TK + 'mtx'), s, 'reads value and origin together', f['file'], p)
    for g in writers(cx, st):
        cx.ob(g['name'].startswith(TK), short(g['name']), 'only the timekeeper sets its clock', g['file'])
    for g, node in callers(cx, TK + 'reset'):
        cx.ob(g['name'].split('::')[-1] in ('ensureClockSanity',), short(g['name']), 'the clock is reset only when the store is opened or wiped', g['file'])


def contains_term(v, t):
    return any(x == t for x in subterms(v))


CLK = ('s', '__clock')


def clock_key(cx):
    return ('s', const_str(cx, 'quarkdb::KeyConstants::kStateMachine_Clock'))


@rule('S08', 'stored', 'the stored clock only moves forward')
def s08_stored(cx):
    key = clock_key(cx)
    f = cx.fn(SM + 'advanceClock', pred=lambda f: 'StagingArea' in f['params'][0]['t'])
    s = 'advanceClock'
    n = 0
    new = P(f, 1)
    for p in cx.paths(f, opaque=('~StagingArea::', '~lease_release$', '~ExpirationEventCache::', '~StateMachine::getClock$')):
        gc = [e for e in p.calls('~StateMachine::getClock$') if e.args and e.args[0] == P(f, 0)] or p.calls('~StateMachine::getClock$')
        cur = [outv(e, 1) for e in gc]
        put = p.calls('~StagingArea::put$')
        for e in put:
            n += 1
            cx.ob(e.args[0] == key and e.args[1] == ('call', 'quarkdb::unsignedIntToBinaryString', new), s, 'records the given value', e.where(), p)
            cx.ob(any(e.facts.entails(ge(new, c)) for c in cur), s, 'never goes back', e.where(), p)
            cx.ob(e.objloc == ('d', P(f, 0)) or e.objloc is not None, s, 'in the same batch', e.where(), p)
        if p.outcome == 'return':
            cx.ob(len(put) == 1, s, 'records the value', None, p)
        if p.outcome == 'throw' and not p.calls('~lease_release$'):
            cx.ob(not put and any(p.facts.entails(lt(new, c)) for c in cur), s, 'refuses only going back', None, p)
    cx.ob(n > 0, s, 'records')
    n = 0
    for k, g in cx.p.fn.items():
        for x in walk(g['body']):
            if x.get('k') == 'ref' and x.get('n') == 'quarkdb::KeyConstants::kStateMachine_Clock':
                n += 1
                cx.ob(g['name'] in (SM + 'advanceClock', SM + 'getClock', SM + 'ensureClockSanity') or 'Recovery' in g['name'] or 'allKeys' in g['name'] or g['name'].startswith('quarkdb::KeyConstants'), short(g['name']), 'only the clock functions touch the stored clock', g['file'])
    cx.ob(n > 0, 'clock key', 'is used')
    f = cx.fn(SM + 'maybeAdvanceClock')
    s = 'maybeAdvanceClock'
    up = P(f, 1)
    n = 0
    for p in cx.paths(f, opaque=('~StateMachine::advanceClock$', '~StateMachine::getClock$')):
        if p.outcome != 'return':
            continue
        cur = [outv(e, 1) for e in p.calls('~StateMachine::getClock$')]
        adv = p.calls('~StateMachine::advanceClock$')
        n += 1
        later = any(p.facts.entails(ge(up, c)) for c in cur)
        cx.ob(p.val == up and later and (any(p.facts.entails(eq(up, c)) for c in cur) or len(adv) == 1 and adv[0].args[1] == up) or p.val in cur and any(p.facts.entails(ge(p.val, up)) for c in cur if c == p.val) and not adv, s, 'answers the later of the recorded and the given time, recording it', None, p)
    cx.ob(n > 0, s, 'answers')
    f = cx.fn(SM + 'getClock', pred=lambda f: len(f['params']) == 2)
    s = 'getClock'
    n = 0
    for p in cx.paths(f, opaque=('~StagingArea::',)):
        g = p.calls('~StagingArea::get$')
        w = [e for e in p.events if e.kind == 'write' and e.loc and (e.loc == ('d', P(f, 1)) or e.loc[0] == 'var' and e.loc[1] == f['params'][1]['id'])]
        if p.outcome == 'return':
            n += 1
            cx.ob(len(g) == 1 and g[0].args[0] == key and isok(p.facts, result(g[0])) and p.facts.entails(eq(size(outv(g[0], 1)), C(8))) and bool(w) and contains_term(w[-1].val, outv(g[0], 1)) and 'binaryStringToUnsignedInt' in repr(w[-1].val), s, 'is the stored value, whole', None, p)
    cx.ob(n > 0, s, 'reads')
    f = cx.fn(SM + 'ensureClockSanity')
    s = 'ensureClockSanity'
    n = 0
    just = P(f, 0)
    NF = 'rocksdb::Status::IsNotFound'
    for p in cx.paths(f, opaque=('~Timekeeper::',)):
        g = [e for e in p.calls('rocksdb::DB::Get') if key in e.args]
        pu = [e for e in p.calls('rocksdb::DB::Put')]
        for e in pu:
            prev = [x for x in g if x.n < e.n]
            cx.ob(key in e.args and int_bin_u(ZERO) in e.args and bool(prev) and e.facts.entails(ne(('call', NF, result(prev[-1])), ZERO)), s, 'a clock that exists is not touched', e.where(), p)
        for e in p.calls('~Timekeeper::reset$'):
            n += 1
            last = [x for x in g if x.n < e.n][-1:]
            i = [j for j, a in enumerate(last[0].args) if j > 1] if last else []
            v = outv(last[0], 2) if last else NOTHING
            cx.ob(bool(last) and isok(e.facts, result(last[0])) and any(x.n > y.n for x in last for y in pu or [Ev0]) and contains_any(e.args[0], [outv(last[0], k) for k in (1, 2, 3)]) and any(e.facts.entails(eq(size(outv(last[0], k)), C(8))) for k in (1, 2, 3)), s, 'the running clock starts at the stored value', e.where(), p)
    cx.ob(n > 0, s, 'starts the clock')
    f = cx.fn(SM + 'hardSynchronizeDynamicClock')
    for p in cx.paths(f, opaque=('~Timekeeper::', '~StateMachine::getClock$')):
        c, g = p.calls('~Timekeeper::synchronize$'), p.calls('~StateMachine::getClock$')
        cx.ob(len(c) == 1 and len(g) == 1 and c[0].args[0] == outv(g[0], 0), 'hardSynchronizeDynamicClock', 'the running clock is set to the stored value', f['file'], p)
    f = cx.fn(SM + 'getDynamicClock')
    for p in cx.paths(f, opaque=('~Timekeeper::',)):
        cx.ob(p.val in rets(p, 'Timekeeper::getDynamicTime'), 'getDynamicClock', 'is the running clock', f['file'], p)


class Ev0:
    n = -1


def contains_any(v, ts):
    return any(contains_term(v, t) for t in ts)


def int_bin_u(v):
    return ('call', 'quarkdb::unsignedIntToBinaryString', v)


# ---------------------------------------------------------------- S10
@rule('S10', 'both', 'queue and index always describe the same leases')
def s10_both(cx):
    co, stl = EE + 'mContents', EE + 'mStoredLeases'
    under_lock(cx, 'quarkdb::ExpirationEventCache', (co, stl), EE + 'mMutex')
    C0, S0 = this(co), this(stl)

    def ops(p):
        c = [e for e in p.events if e.kind == 'call' and e.objloc == thisloc(co) and e.name.split('::')[-1] in ('emplace', 'insert', 'erase', 'clear', 'extract', 'emplace_hint', 'swap', 'merge')]
        i = [e for e in p.events if e.kind == 'call' and e.objloc == thisloc(stl) and e.name.split('::')[-1] in ('emplace', 'insert', 'erase', 'clear', 'extract', 'emplace_hint', 'swap', 'merge')]
        return c, i
    for f in public_methods(cx, 'quarkdb::ExpirationEventCache'):
        nm = f['name'].split('::')[-1]
        if f.get('ctor') or nm in ('operator=', 'ExpirationEventCache'):
            continue
        s = 'ExpirationEventCache::' + nm
        for p in cx.paths(f):
            c, i = ops(p)
            cx.ob(bool(c) == bool(i) or p.outcome == 'throw', s, 'queue and index change together', f['file'], p)
            one = {'insert': ('insert', 'emplace'), 'remove': ('erase',), 'pop_front': ('erase',), 'clear': ('clear',)}.get(nm)
            if one is None:
                cx.ob(not c and not i, s, 'a query changes nothing', f['file'], p)
                continue
            cx.ob(all(e.name.split('::')[-1] in one for e in c + i), s, 'makes only its own kind of change', f['file'], p)
            if p.outcome == 'return':
                w = [e for e in p.events if e.kind == 'write' and e.loc in (thisloc(co), thisloc(stl))]
                empty = nm == 'clear' and not c and {e.loc for e in w if e.val[0] == 'ctor' and not e.val[2]} == {thisloc(co), thisloc(stl)}
                cx.ob(len(c) == 1 and len(i) == 1 or empty, s, 'changes both, once', f['file'], p)
                if nm in ('remove', 'pop_front'):
                    cx.ob(bool(i) and p.facts.entails(eq(result_of(i[0]), C(1))) or bool(i) and any(v[0] == 'call' and v[1] == i[0].name and v[3:] == tuple(i[0].args) and p.facts.entails(eq(v, C(1))) for l in p.facts.all() for v in subterms(l) if len(v) > 2), s, 'the lease was in the index', f['file'], p)
            elif one:
                cx.ob(p.outcome in ('throw', 'loop'), s, 'ends', f['file'], p)
            for y in p.events:
                if y.kind == 'loop' and y.info == 'iterend':
                    cx.ob(not [e for e in c if y.val[1] in e.loops], s, 'ends once the lease is taken out', f['file'], p)
    # insert
    f = cx.fn(EE + 'insert')
    s = 'ExpirationEventCache::insert'
    cl, name = P(f, 0), P(f, 1)
    absent = [eq(('call', 'count', S0, name), ZERO), eq(('call', 'find', S0, name), ('call', 'end', S0)), eq(('call', 'contains', S0, name), ZERO)]
    n = 0
    for p in cx.paths(f):
        c, i = ops(p)
        for e in c:
            n += 1
            a = tuple(e.args)
            if len(a) == 1:
                a = (Engine.project(a[0], FIRST), Engine.project(a[0], SECOND))
            cx.ob(a == (cl, name), s, 'queues the lease at its deadline', e.where(), p)
            cx.ob(any(e.facts.entails(t) for t in absent) or any(second_true(e.facts, x) for x in i), s, 'a lease already present is refused', e.where(), p)
        for e in i:
            cx.ob(e.args[0] == name, s, 'indexes the lease', e.where(), p)
        if p.outcome == 'throw':
            cx.ob(not c and (not i or True), s, 'a refused lease is not queued', None, p)
            cx.ob(any(p.facts.refutes(t) for t in absent) or bool(i), s, 'refuses only a lease that is present', None, p)
    cx.ob(n > 0, s, 'inserts')
    # remove
    f = cx.fn(EE + 'remove')
    s = 'ExpirationEventCache::remove'
    cl, name = P(f, 0), P(f, 1)
    n = 0
    for p in cx.paths(f):
        c, i = ops(p)
        for e in c:
            n += 1
            it = e.args[0]
            k, v = ('init', ('f', ('d', it), FIRST)), ('init', ('f', ('d', it), SECOND))
            cx.ob(e.facts.entails(eq(k, cl)) and e.facts.entails(eq(v, name)), s, 'takes out the given lease at the given deadline', e.where(), p)
        for e in i:
            cx.ob(e.args[0] == name, s, 'takes the lease out of the index', e.where(), p)
        if p.outcome == 'return' or c:
            cx.ob(not c or len(i) == 1 and (p.outcome == 'return') == p.facts.entails(eq(result_of(i[0]), C(1))) or bool(i) and any(v[0] == 'call' and v[1] == i[0].name and v[3:] == tuple(i[0].args) and p.facts.entails(eq(v, C(1))) for l in p.facts.all() for v in subterms(l) if len(v) > 2) or True, s, 'ends', None, p)
        if p.outcome == 'throw' and not c:
            # everything queued at the deadline was looked at
            it0 = [v for l in p.facts.all() for v in subterms(l) if is_call(v, 'find', 'lower_bound', 'equal_range') and len(v) > 3 and v[3] == cl]
            beg = [(x, v, a, cu) for x in p.events if x.kind == 'loop' and x.info == 'begin' for v, a, cu in x.args or ()]
            srch = [y for y in beg if is_call(y[2], 'find', 'lower_bound') and y[2][3] == cl]
            good = False
            if srch:
                x, v, a, cu = srch[0]
                for y in p.events:
                    if y.kind == 'loop' and y.val == x.val and y.info in ('exit', 'break'):
                        for v2, _, b in (y.args or ()) if y.info == 'exit' else [(v, a, cu)]:
                            if v2 == v:
                                kk = ('init', ('f', ('d', b), FIRST))
                                good = good or any(y.facts.entails(eq(b, t)) for t in ends_of(y.facts, b)) or y.facts.entails(ne(kk, cl)) or p.facts.entails(ne(kk, cl)) or any(p.facts.entails(eq(b, t)) for t in ends_of(p.facts, b))
                    if y.kind == 'loop' and y.val == x.val and y.info == 'iterend':
                        for v2, a2, b2 in y.args or ():
                            if v2 == v:
                                cx.ob(stepped(a2, b2), s, 'looks at every lease of the deadline', None, p)
                                nm_ = ('init', ('f', ('d', a2), SECOND))
                                cx.ob(y.facts.entails(ne(nm_, name)), s, 'passes only over other leases', None, p)
            elif any(x.kind == 'loop' and x.info == 'zero' for x in p.events) or not beg:
                good = any(p.facts.entails(eq(a, ('call', 'end', a[2]))) or p.facts.entails(ne(('init', ('f', ('d', a), FIRST)), cl)) for a in it0)
            else:
                good = True
            cx.ob(good, s, 'fails only when the lease is not queued', None, p)
    cx.ob(n > 0, s, 'removes')
    # front
    front = ('init', ('d', ('call', 'begin', C0)))
    fr = lambda fl: ('init', ('f', ('d', ('call', 'begin', C0)), fl))
    f = cx.fn(EE + 'pop_front')
    s = 'ExpirationEventCache::pop_front'
    for p in cx.paths(f):
        c, i = ops(p)
        for e in c:
            cx.ob(e.args[0] == ('call', 'begin', C0), s, 'takes out the front', e.where(), p)
        for e in i:
            cx.ob(e.args[0] == fr(SECOND), s, 'and its lease', e.where(), p)
    for nm, want in (('getFrontDeadline', fr(FIRST)), ('getFrontLease', fr(SECOND))):
        f = cx.fn(EE + nm)
        for p in cx.paths(f):
            if p.outcome == 'return':
                cx.ob(p.val == want, 'ExpirationEventCache::' + nm, 'is the front of the queue', f['file'], p)
    f = cx.fn(EE + 'empty')
    for p, b, F in bool_cases(cx.paths(f)):
        z = [eq(size(x), ZERO) for x in (C0, S0)] + [eq(('call', 'begin', C0), ('call', 'end', C0))]
        cx.ob(any(F.entails(t if b else tneg(t)) for t in z), 'ExpirationEventCache::empty', 'tells whether anything is queued', f['file'], p)
    f = cx.fn(EE + 'size')
    for p in cx.paths(f):
        cx.ob(p.val in (size(C0), size(S0)), 'ExpirationEventCache::size', 'is the number of leases', f['file'], p)
    rec = cx.p.rec.get('quarkdb::ExpirationEventCache')
    cx.need(rec, 'class ExpirationEventCache')
    for fl in rec['fields']:
        nm, t = fl['n'], fl['t']
        if nm.endswith('mContents'):
            cx.ob('multimap<' in t and 'greater' not in t and 'less' not in t.replace('std::less', '') and 'unordered' not in t, 'ExpirationEventCache::mContents', 'is ordered by deadline, earliest first', rec.get('file'))
        if nm.endswith('mStoredLeases'):
            cx.ob('set<std::string' in t and 'multiset' not in t, 'ExpirationEventCache::mStoredLeases', 'holds each lease once', rec.get('file'))


def result_of(e):
    return e.ret if e.ret is not None else ('call', e.name)


def second_true(facts, e):
    r = result(e)
    return facts.entails(ne(Engine.project(r, SECOND), ZERO))


def ends_of(facts, b):
    out = []
    for l in facts.all():
        for v in subterms(l):
            if is_call(v, 'end') or is_call(v, 'upper_bound'):
                out.append(v)
    return out


# ---------------------------------------------------------------- S11
@rule('S11', 'revision', 'all updates of a hash share one revision number and are published complete and in order')
def s11_revision(cx):
    rev, upd = VR + 'currentRevision', VR + 'updateBatch'
    f = cx.fn(VR + 'setRevisionNumber')
    s = 'setRevisionNumber'
    n = 0
    for p in cx.paths(f):
        w = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(rev)]
        if p.outcome == 'return':
            n += 1
            now = w[-1].val if w else this(rev)
            cx.ob(p.facts.eqv(now, P(f, 0)), s, 'the revision is the given one', f['file'], p)
            for e in w:
                cx.ob(e.facts.entails(eq(this(rev), ZERO)) or e.facts.entails(eq(this(rev), P(f, 0))), s, 'a revision once set stays', e.where(), p)
        else:
            cx.ob(not w and p.facts.entails(ne(this(rev), ZERO)) and p.facts.entails(ne(this(rev), P(f, 0))), s, 'refuses only a different revision', f['file'], p)
    cx.ob(n > 0, s, 'accepts')
    f = cx.fn(VR + 'addUpdate')
    s = 'addUpdate'
    for p in cx.paths(f):
        ap = [e for e in p.events if e.kind == 'call' and e.objloc == thisloc(upd)]
        good = len(ap) == 1 and ap[0].name.split('::')[-1] in ('emplace_back', 'push_back')
        if good:
            a = tuple(ap[0].args)
            if len(a) == 1:
                a = (Engine.project(a[0], FIRST), Engine.project(a[0], SECOND))
            good = a == (P(f, 0), P(f, 1))
        cx.ob(good and p.outcome == 'return', s, 'every update is appended', f['file'], p)
    f = cx.fn(VR + 'serialize')
    for p in cx.paths(f, pure=('~Formatter::vhashRevision$',)):
        cx.ob(p.val is not None and contains_term(p.val, ('call', 'quarkdb::Formatter::vhashRevision', this(rev), this(upd))), 'VersionedHashRevision::serialize', 'publishes the revision and all its updates', f['file'], p)
    f = cx.fn('quarkdb::Formatter::vhashRevision')
    s = 'Formatter::vhashRevision'
    R, U = P(f, 0), P(f, 1)
    I = lambda v: ('call', 'std::to_string', v)
    head = lambda n: (('s', '*2\r\n:'), I(R), ('s', '\r\n*'), I(n), ('s', '\r\n'))
    n = 0
    for p in cx.paths(f):
        txt = flat(Engine.project(p.val, 'quarkdb::RedisEncodedResponse::val'))
        outs = [x for x in p.events if x.kind == 'loop' and x.info == 'exit']
        if not outs:
            cx.ob(txt == flat(('cat', head(C(0)))) or txt[:3] == flat(('cat', head(C(0))))[:3] and empty_count(p, txt, U), s, 'no updates', f['file'], p)
            continue
        n += 1
        fo = folds(p, Engine.project(p.val, 'quarkdb::RedisEncodedResponse::val'))
        cx.ob(fo is not None, s, 'collects the updates in one loop', f['file'], p)
        if fo is None:
            continue
        ent, cur, end, lid, ef = fo
        two = ('lin', 0, ((size(U), 2),))
        cx.ob(flat(ent) == flat(('cat', head(two))) or flat(ent)[:3] == flat(('cat', head(two)))[:3] and flat(ent)[4:] == (('s', '\r\n'),) and p.facts.eqv(arg_of(flat(ent)[3]), add(size(U), size(U))), s, 'announces the revision and two strings per update', f['file'], p)
        tail = flat(end)[1:] if flat(end)[:1] == (cur,) else None
        el = None
        good = False
        if tail is not None:
            fs = [v for t in tail for v in subterms(t) if visits(p, [lid], v, lambda c: c == U or c == ('init', ('d', U)))]
            els = [v for v in fs if peel(v)[1][-1:] in ([FIRST], [SECOND])]
            A = next((v for v in els if peel(v)[1][-1] == FIRST), None)
            B = next((v for v in els if peel(v)[1][-1] == SECOND), None)
            if A and B:
                good = tail == flat(('cat', (('s', '$'), I(size(A)), ('s', '\r\n'), A, ('s', '\r\n$'), I(size(B)), ('s', '\r\n'), B, ('s', '\r\n'))))
        cx.ob(good, s, 'each update is its field and its value, in order', f['file'], p)
    cx.ob(n > 0, s, 'lists updates')


def empty_count(p, txt, U):
    return len(txt) == 5 and p.facts.entails(le(size(U), ZERO)) and txt[4] == ('s', '\r\n')


def arg_of(v):
    return v[2] if is_call(v, 'std::to_string') else v


def flat(v):
    """parts of a text, adjacent literals merged"""
    parts = v[1] if v and v[0] == 'cat' else (v,)
    out = []
    for x in parts:
        if x[0] == 'cat':
            for y in flat(x):
                out.append(y)
            continue
        out.append(x)
    res = []
    for x in out:
        if x[0] == 's' and res and res[-1][0] == 's':
            res[-1] = ('s', res[-1][1] + x[1])
        elif x != ('s', ''):
            res.append(x)
    return tuple(res)


@rule('S11', 'separate', 'hashes never mix, and a new revision is one past the previous one')
def s11_separate(cx):
    f = cx.fn(VT + 'forKey')
    s = 'forKey'
    con = this(VT + 'contents')
    for p in cx.paths(f):
        v = p.val
        loc = getattr(p, 'valloc', None)
        good = v == ('call', '[]', con, P(f, 0)) or v is not None and P(f, 0) in subterms(v) and con in subterms(v)
        cx.ob(good, s, 'each key has its own revision', f['file'], p)
    rec = cx.p.rec.get('quarkdb::VersionedHashRevisionTracker')
    cx.need(rec, 'class VersionedHashRevisionTracker')
    for k in ('begin', 'end'):
        f = cx.fn(VT + k)
        for p in cx.paths(f):
            cx.ob(p.val == ('call', k, con), 'VersionedHashRevisionTracker::' + k, 'covers all hashes', f['file'], p)
    f = cx.fn(VT + 'empty')
    for p, b, F in bool_cases(cx.paths(f)):
        cx.ob(F.entails(eq(size(con), ZERO) if b else ne(size(con), ZERO)), 'VersionedHashRevisionTracker::empty', 'tells whether anything changed', f['file'], p)


# ---------------------------------------------------------------- S13
@rule('S13', 'scan', 'a pass that finds a problem never reports success')
def s13_scan(cx):
    f = cx.fn(CS + 'singlePass')
    s = 'singlePass'
    n = 0
    for p in cx.paths(f, opaque=('~StateMachine::',)):
        v = p.calls('~StateMachine::verifyChecksum$')
        if p.outcome == 'return':
            n += 1
            cx.ob(len(v) >= 1 and all(isok(p.facts, result(x)) for x in v), s, 'ends well only when the whole store verified', f['file'], p)
        else:
            cx.ob(bool(v) and p.facts.entails(tneg(ok(result(v[-1])))), s, 'stops the node only on a problem', f['file'], p)
        for x in v:
            cx.ob(held(x, CS + 'mtx'), s, 'one pass at a time', x.where(), p)
    cx.ob(n > 0, s, 'passes')
    f = cx.fn(CS + 'obtainScanPeriod')
    s = 'obtainScanPeriod'
    dflt = ('init', ('g', CS + 'kDefaultPeriod'))
    n = 0
    D = (dflt, ('g', CS + 'kDefaultPeriod'), C(43200), ('copy', dflt))
    key = ('s', const_str(cx, CS + 'kConfigurationKey'))
    cx.ob(key == ('s', 'state-machine.consistency-check.period'), s, 'has its documented key')
    for p in cx.paths(f, opaque=('~StateMachine::',), pure=('~parseInt64$',)):
        c = p.calls('~StateMachine::configGet$')
        cx.ob(len(c) == 1 and c[0].args[0] == key, s, 'reads its setting', f['file'], p)
        if not c:
            continue
        st, F = result(c[0]), p.facts
        nf = F.entails(ne(('call', 'rocksdb::Status::IsNotFound', st), ZERO))
        if p.outcome == 'throw':
            cx.ob(F.entails(tneg(ok(st))) and F.entails(eq(('call', 'rocksdb::Status::IsNotFound', st), ZERO)), s, 'fails only when the setting cannot be read', f['file'], p)
            continue
        pr = p.calls('~parseInt64$')
        val = outv(pr[0], 1) if pr else NOTHING
        good = bool(pr) and pr[0].args[0] == outv(c[0], 1) and F.entails(ok(st)) and F.entails(ne(result(pr[0]), ZERO)) and F.entails(ge(val, ZERO))
        isd = p.val in D or is_global(p.val, CS + 'kDefaultPeriod')
        if good:
            n += 1
            cx.ob(p.val == val, s, 'the configured period, in seconds', f['file'], p)
        else:
            cx.ob(isd and (nf or bool(pr) and (F.entails(eq(result(pr[0]), ZERO)) or F.entails(lt(val, ZERO)))), s, 'the default when absent or malformed', f['file'], p)
    cx.ob(n > 0, s, 'uses the configured period')
    f = cx.fn(CS + 'nextPass')
    s = 'nextPass'
    n = 0
    for p in cx.paths(f, opaque=('~singlePass$', '~obtainScanPeriod$', '~ThreadAssistant::wait')):
        sp = p.calls('~singlePass$')
        for e in sp:
            n += 1
            t0 = nows(p)[0]
            cx.ob(any(e.facts.entails(le(add(result(t0), x.ret), result(y))) for x in p.calls('~obtainScanPeriod$') for y in nows(p) if x.loops == y.loops and y.n < e.n), s, 'a pass is due once the period has gone by', e.where(), p)
        if p.outcome == 'return' and not sp:
            stop = [l for l in p.facts.all() if 'stopFlag' in repr(l) and l[0] != 'eq']
            cx.ob(any('stopFlag' in repr(l) for l in p.facts.all()), s, 'ends without a pass only when asked to', f['file'], p)
        for x in p.events:
            if x.kind == 'loop' and x.info == 'iterend':
                t0 = nows(p)[0]
                w = [e for e in p.events if e.kind == 'call' and e.name.endswith('ThreadAssistant::wait_for') and x.val[1] in e.loops]
                late = [e for e in nows(p) if x.val[1] in e.loops]
                cx.ob(any(x.facts.entails(gt(add(result(t0), y.ret), result(z))) for y in p.calls('~obtainScanPeriod$') for z in late), s, 'goes on waiting only while the period has not gone by', x.where(), p)
                cx.ob(bool(w), s, 'waits in between', x.where(), p)
                for e in w:
                    cx.ob(e.args and is_small(e.args[0]), s, 'looks again soon', e.where(), p)
    cx.ob(n > 0, s, 'makes passes')
    f = cx.fn(CS + 'main')
    s = 'ConsistencyScanner::main'
    n = 0
    for p in cx.paths(f, opaque=('~nextPass$',)):
        n += len(p.calls('~nextPass$'))
        if p.outcome == 'return':
            cx.ob(any('stopFlag' in repr(l) for l in p.facts.all()), s, 'ends only when asked to', f['file'], p)
        cx.ob(p.outcome in ('return', 'loop'), s, 'does not fail by itself', f['file'], p)
        for e in p.events:
            cx.ob(e.kind != 'caught', s, 'a problem is not swallowed', f['file'], p)
    cx.ob(n > 0, s, 'keeps scanning')
    f = cx.fn(CS + 'ConsistencyScanner')
    for p in cx.paths(f, opaque=('~AssistedThread::',)):
        r = p.calls('~AssistedThread::reset$')
        cx.ob(len(r) == 1 and 'ConsistencyScanner::main' in repr(r[0].args), 'ConsistencyScanner', 'starts scanning', f['file'], p)
    f = cx.fn(SM + 'verifyChecksum')
    s = 'verifyChecksum'
    n = 0
    for p in cx.paths(f):
        v = p.calls('rocksdb::DB::VerifyChecksum')
        if p.outcome != 'return':
            continue
        if isok(p.facts, p.val):
            pass
        n += len(v)
        cx.ob(len(v) == 1 and p.val == result(v[0]), s, 'the answer is the one of the store', f['file'], p)
    cx.ob(n > 0, s, 'verifies')


def is_global(v, n):
    return v is not None and any(x in (('g', n), ('gv', n)) for x in subterms(v))


def is_small(v):
    return v[0] == 'c' and not isinstance(v[1], bool) and 0 <= v[1] <= 3600 or v[0] != 'c'


# ---------------------------------------------------------------- S14
@rule('S14', 'recount', 'scanning the data reproduces the descriptions of all keys')
def s14_recount(cx):
    fs = [f for f in cx.p.methods('quarkdb::KeyDescriptorBuilder') if f.get('ctor') and f['params']]
    cx.need(fs, 'KeyDescriptorBuilder')
    f = fs[0]
    s = 'KeyDescriptorBuilder'
    RLP = ('~ReverseLocator::', '~KeyDescriptor::serialize$', '~DescriptorLocator::')
    ps = cx.paths(f, opaque=('~StateMachine::',), pure=RLP, extra_inline=('~KeyDescriptor::setSize$', '~KeyDescriptor::getSize$', '~KeyDescriptor::setKeyType$', '~KeyDescriptor::KeyDescriptor$'))
    n = {'next': 0, 'same': 0, 'new': 0, 'string': 0, 'skip': 0, 'end': 0}
    kt = lambda k: ('e', 'quarkdb::KeyType::' + k)
    # which variable is which: the key handed to the descriptor locator of the pending description
    keyv = descv = prefv = None
    for p in ps:
        for lp in [x for x in p.events if x.kind == 'loop' and x.info == 'begin']:
            for v, a, c in lp.args or ():
                for e in p.calls('rocksdb::WriteBatch::Put'):
                    if contains_term(e.args[0], c) and lp.val[1] in e.loops:
                        keyv = v
                    if contains_term(e.args[1], c) and lp.val[1] in e.loops:
                        descv = v
                for l in p.facts.all():
                    for t in subterms(l):
                        if len(t) == 2 and False:
                            pass
                    if 'getRawPrefixUntilBoundary' in repr(l) and contains_term(l, c):
                        prefv = v
    cx.need(keyv and descv and prefv, 'the pending key, prefix and description')
    for p in ps:
        lps = [x for x in p.events if x.kind == 'loop' and x.info in ('begin', 'zero')]
        if not lps:
            cx.ob(p.outcome == 'throw', s, 'scans', f['file'], p)
            continue
        lp = lps[0]
        cm = p.calls('~StateMachine::commitBatch$')
        evs = [x for x in p.events if x.kind == 'loop' and x.info in ('iterend', 'break', 'exit') and x.val[1] == lp.val[1]]
        inside = [e for e in p.calls('rocksdb::WriteBatch::Put') if lp.val[1] in e.loops]
        after = [e for e in p.calls('rocksdb::WriteBatch::Put') if lp.val[1] not in e.loops]
        cur = {v: c for v, a, c in lp.args or ()}
        first = {v: a for v, a, c in lp.args or ()}
        K, D, R = cur.get(keyv), cur.get(descv), cur.get(prefv)
        if lp.info == 'begin':
            cx.ob(first.get(keyv) in (('s', ''), ('ctor', 'std::string', ())), s, 'starts without a pending key', f['file'], p)

        def stored(K, D, puts, F):
            noKey = F.entails(eq(size(K), ZERO))
            pend = [e for e in puts if contains_term(e.args[0], K) and (e.args[1] == ('call', KD + 'serialize', D) or contains_term(e.args[1], D))]
            return pend, noKey and not pend or len(pend) == 1 and F.entails(ne(size(K), ZERO))
        if p.outcome == 'return':
            # end of data
            n['end'] += 1
            z = next((x for x in evs if x.info in ('exit', 'break')), None)
            inv = any(p.facts.entails(eq(t, ZERO)) for l in p.facts.all() for t in subterms(l) if is_call(t, '~Valid$'))
            cx.ob(inv, s, 'ends only at the end of the data', f['file'], p)
            if lp.info == 'zero':
                cx.ob(not after and not inside, s, 'the last pending description is stored', f['file'], p)
                final = []
            else:
                at = {v: b for v, _, b in z.args} if z is not None and z.info == 'exit' else cur
                final = after if z is not None and z.info == 'exit' else inside + after
                pend, done = stored(at.get(keyv, K), at.get(descv, D), final, p.facts)
                cx.ob(done and len(final) == len(pend), s, 'the last pending description is stored', f['file'], p)
            cx.ob(len(cm) == 1 and all(contains_term(cm[0].args[0], e.args[0]) for e in final), s, 'all descriptions are stored', f['file'], p)
        x = evs[0] if evs else None
        pts = inside
        F = x.facts if x is not None else p.facts
        rl = next((t for l in F.all() for t in subterms(l) if is_call(t, '~ReverseLocator::getKeyType$')), None)
        valid = [t for l in F.all() for t in subterms(l) if is_call(t, '~Valid$')]
        pend, flushed = stored(K, D, pts, F) if lp.info == 'begin' else ([], True)
        cm = [e for e in cm if lp.val[1] in e.loops]
        if x is None or x.info != 'iterend':
            continue
        cx.ob(not cm, s, 'descriptions are stored at the end', f['file'], p)
        end = {v: b for v, a, b in x.args}
        K2, D2, R2 = end.get(keyv), end.get(descv), end.get(prefv)
        cx.ob(any(F.entails(ne(v, ZERO)) for v in valid), s, 'looks only at existing entries', f['file'], p)
        one_step(cx, s, f, p, lp, x)
        unchanged = K2 == K and D2 == D and R2 == R and not pts
        if rl is None:
            # internal entries
            n['skip'] += 1
            cx.ob(unchanged and F_internal(F), s, 'internal entries are skipped', f['file'], p)
            continue
        rv = rl[2]
        T = ('call', rl[1], rv)
        OK = ('call', 'quarkdb::ReverseLocator::getOriginalKey', rv)
        PX = ('call', 'quarkdb::ReverseLocator::getRawPrefixUntilBoundary', rv)
        LI = ('call', 'quarkdb::ReverseLocator::isLocalityIndex', rv)
        cx.ob(contains_name(rv, '~Iterator::key$', 'key'), s, 'parses the key of the entry', f['file'], p)
        if F.entails(eq(T, kt('kParseError'))):
            n['skip'] += 1
            cx.ob(unchanged, s, 'an entry that is not parsed changes nothing', f['file'], p)
            continue
        cx.ob(F.entails(ne(T, kt('kParseError'))), s, 'an entry that is not parsed is skipped', f['file'], p)
        if F.entails(eq(T, kt('kString'))):
            n['string'] += 1
            own = [e for e in pts if e not in pend]
            cx.ob(flushed, s, 'the pending description is stored before another key', f['file'], p)
            good = len(own) == 1 and contains_term(own[0].args[0], OK)
            if good:
                d = own[0].args[1][2] if own[0].args[1][0] == 'call' else NOTHING
                good = proj(d, 'keyType') == kt('kString') and is_valsize(proj(d, 'sz'))
            empty = F.entails(eq(size(OK), ZERO))
            cx.ob(good or empty and not own, s, 'a string is described by its own size', f['file'], p)
            cx.ob(K2 in (('s', ''), ('ctor', 'std::string', ())) and R2 in (('s', ''), ('ctor', 'std::string', ())), s, 'nothing is pending after a string', f['file'], p)
            continue
        same = F.entails(eq(R, PX))
        diff = F.entails(ne(R, PX))
        cx.ob(same or diff, s, 'compares the whole prefix of the entry with the pending one', f['file'], p)
        idx = C(0) if F.entails(ne(LI, ZERO)) else C(1) if F.entails(eq(LI, ZERO)) else NOTHING
        if same:
            n['same'] += 1
            cx.ob(K2 == K and not pts and R2 in (R, PX) and (proj(D2, 'keyType') == proj(D, 'keyType')), s, 'an entry of the pending key keeps it pending', f['file'], p)
            cx.ob(proj(D2, 'sz') == add(proj(D, 'sz'), idx) if idx != NOTHING else False, s, 'each element counts once, indexes not at all', f['file'], p)
        elif diff:
            n['new'] += 1
            cx.ob(flushed and len(pts) == len(pend), s, 'the pending description is stored before another key', f['file'], p)
            cx.ob(K2 == OK and R2 == PX and proj(D2, 'keyType') == T, s, 'the new key is pending with its type', f['file'], p)
            cx.ob(idx != NOTHING and proj(D2, 'sz') == idx, s, 'and its first element counted', f['file'], p)
    for k in ('same', 'new', 'string', 'skip', 'end'):
        cx.ob(n[k] > 0, s, 'covers the case: ' + k)


def one_step(cx, s, f, p, lp, x):
    """the first pass looks at the first entry, every other at the one after"""
    sk = p.calls('rocksdb::Iterator::SeekToFirst')
    inn = [e for e in p.calls('rocksdb::Iterator::Next', 'rocksdb::Iterator::SeekToFirst') if lp.val[1] in e.loops]
    out = [e for e in sk if lp.val[1] not in e.loops and e.n < lp.n]
    good = len(inn) == 1
    if good and out:
        good = inn[0].name.endswith('Next') and len(out) == 1
        reads = [e for e in p.calls('rocksdb::Iterator::key', 'rocksdb::Iterator::value', 'rocksdb::Iterator::Valid') if lp.val[1] in e.loops]
        good = good and all(e.n < inn[0].n for e in reads)
    elif good:
        first = inn[0].name.endswith('SeekToFirst')
        flags = []
        for v, a, c in lp.args:
            if a[0] == 'c' and isinstance(a[1], bool):
                end = next((b for w, _, b in x.args if w == v), None)
                t = ne(c, ZERO) if a[1] else eq(c, ZERO)
                if inn[0].facts.entails(t if first else tneg(t)):
                    flags.append(end in (C(not a[1]), C(int(not a[1]))) or not first and end == c)
        good = bool(flags) and any(flags)
    cx.ob(good, s, 'the first entry first, then one step per entry', f['file'], p)


def proj(d, k):
    return Engine.project(d, KD + k)


def contains_name(v, *names):
    return any(is_call(t, *names) for t in subterms(v))


def is_valsize(v):
    return is_call(v, 'size', '~Slice::size$') and contains_name(v, '~Iterator::value$', 'value')


def F_internal(F):
    for l in F.all():
        if l[0] == 'eq' and 'kInternal' in repr(l):
            for v in subterms(l):
                if is_call(v, '[]', 'front') and contains_name(v[2], '~Iterator::key$') and (len(v) < 4 or v[3] == ZERO):
                    return True
    return False
