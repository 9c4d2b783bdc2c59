"""Raft state: R09, R10."""
from qdb.common import *

S = 'quarkdb::RaftState::'
CLS = 'quarkdb::RaftState'
SN = 'quarkdb::RaftStateSnapshot::'
FIELDS = ('term', 'status', 'leader', 'votedFor', 'leadershipMarker')
T0, ST0, L0, V0, ME, MK0 = [this(S + x) for x in ('term', 'status', 'leader', 'votedFor', 'myself', 'leadershipMarker')]
FOL, CAN, LEA, SHU = [('e', 'quarkdb::RaftStatus::' + x) for x in ('FOLLOWER', 'CANDIDATE', 'LEADER', 'SHUTDOWN')]
BLOCKED = ('g', 'quarkdb::RaftState::BLOCKED_VOTE')
OPQ = ('~quarkdb::RaftJournal::',)
PURE = ('contains', 'quarkdb::contains')


def emp(v):
    return ne(('call', 'quarkdb::RaftServer::empty', v), ZERO)


def is_blocked(v):
    return 'BLOCKED_VOTE' in repr(v)


def spaths(cx, f):
    return cx.paths(f, opaque=OPQ, pure=PURE)


def every(cx):
    for f in public_methods(cx, CLS, ('RaftState',)):
        for p in spaths(cx, f):
            yield f, p


def field_of(loc):
    """state field a write touches (subfields included)"""
    while loc[0] == 'f':
        if loc[1] == ('d', ('this',)) and loc[2].startswith(S):
            return loc[2][len(S):]
        loc = loc[1]
    return None


def sw(p, field=None):
    return [e for e in p.events if e.kind == 'write' and field_of(e.loc) in (FIELDS if field is None else (field,))]


def member(facts, who):
    """who is in the journal's full member list"""
    for l in facts.all():
        if l[0] in ('ne', 'eq') and len(l[1]) == 1:
            t = l[1][0][0]
            if t[0] == 'call' and t[1] in PURE and is_ret(t[2], '~RaftJournal::getNodes$') and t[3] == who and facts.entails(ne(t, ZERO)):
                return True
    return False


def cleared(path, field):
    f = ('f', thisloc(S + field), 'quarkdb::RaftServer::hostname')
    return path.final(f) == ('s', '')


@rule('R09', 'leader', 'leading starts only from candidacy in the same term, after the own leadership marker was accepted at the end of the log')
def r09_leader(cx):
    n = 0
    for f, p in every(cx):
        s = short(f['name'])
        for e in sw(p, 'status'):
            if e.facts.refutes(eq(e.val, LEA)):
                continue
            n += 1
            cx.ob(e.val == LEA, s, 'the new status is decided', e.where(), p)
            cx.ob(e.facts.entails(eq(ST0, CAN)), s, 'only a candidate starts leading', e.where(), p)
            cx.ob(not sw(p, 'term') and any(e.facts.entails(eq(T0, P(f, i))) for i in range(len(f['params']))), s, 'the term is the one the candidacy was for', e.where(), p)
            cx.ob(e.facts.entails(emp(L0)), s, 'no leader is known in the term', e.where(), p)
            cx.ob(e.facts.entails(eq(V0, ME)), s, 'the own vote of the term is for oneself', e.where(), p)
            cx.ob(member(e.facts, ME), s, 'only a full member leads', e.where(), p)
            ap = [c for c in p.calls('quarkdb::RaftJournal::appendLeadershipMarker') if c.n < e.n]
            cx.ob(len(ap) == 1 and e.facts.entails(ne(ap[0].ret, ZERO)), s, 'the leadership marker was accepted', e.where(), p)
            if ap:
                c = ap[0]
                cx.ob(e.facts.eqv(c.args[1], T0) and c.args[2] == ME, s, 'the marker names this term and this node', c.where(), p)
                cx.ob(is_ret(c.args[0], '~RaftJournal::getLogSize$') and p.final(thisloc(S + 'leadershipMarker')) == c.args[0], s, 'the marker position recorded is the one appended at', c.where(), p)
            cx.ob(p.final(thisloc(S + 'leader')) == ME, s, 'a leader recognises itself', e.where(), p)
        for c in p.calls('quarkdb::RaftJournal::appendLeadershipMarker'):
            cx.ob(c.facts.entails(AND(eq(ST0, CAN), eq(T0, c.args[1]))), s, 'a marker is only appended by the candidate of that term', c.where(), p)
            cx.ob(held(c, S + 'update'), s, 'the marker is appended under the state lock', c.where(), p)
    cx.ob(n > 0, 'RaftState', 'some operation starts leading')


@rule('R09', 'candidate', 'candidacy starts only for the current term, from follower without leader or vote, by recording the own vote')
def r09_cand(cx):
    n = 0
    for f, p in every(cx):
        s = short(f['name'])
        for e in sw(p, 'status'):
            if e.facts.refutes(eq(e.val, CAN)):
                continue
            n += 1
            cx.ob(e.val == CAN and e.facts.entails(eq(ST0, FOL)), s, 'only a follower becomes a candidate', e.where(), p)
            cx.ob(not sw(p, 'term') and any(e.facts.entails(eq(T0, P(f, i))) for i in range(len(f['params']))), s, 'only for the current term', e.where(), p)
            cx.ob(e.facts.entails(emp(L0)) and e.facts.entails(emp(V0)), s, 'only without a leader or a vote in the term', e.where(), p)
            cx.ob(member(e.facts, ME), s, 'only a full member runs', e.where(), p)
            cx.ob(p.final(thisloc(S + 'votedFor')) == ME, s, 'a candidate votes for itself', e.where(), p)
            cx.ob(any(c.args == (T0, ME) and c.n < e.n for c in p.calls('quarkdb::RaftJournal::setCurrentTerm')), s, 'the own vote is recorded first', e.where(), p)
    cx.ob(n > 0, 'RaftState', 'some operation starts a candidacy')


@rule('R09', 'one-leader', 'a known leader is only replaced in a newer term, and knowing a leader blocks the vote')
def r09_one(cx):
    for f, p in every(cx):
        s = short(f['name'])
        tw = sw(p, 'term')
        newterm = bool(tw) and p.facts.entails(gt(tw[-1].val, T0))
        for e in sw(p, 'leader'):
            cx.ob(newterm or e.facts.entails(emp(L0)), s, 'a known leader is not replaced in its term', e.where(), p)
        if sw(p, 'leader') and p.outcome == 'return':
            l, v = p.final(thisloc(S + 'leader')), p.final(thisloc(S + 'votedFor'))
            voted = is_blocked(v) or p.facts.eqv(v, ME) or (v == V0 and p.facts.entails(tneg(emp(V0))))
            cx.ob(voted or p.facts.entails(emp(l)), s, 'once a leader is known no vote is left to give in its term', None, p)
            cx.ob(l == ME or any(l == P(f, i) for i in range(len(f['params']))), s, 'the leader recognised is the one reported', None, p)
        for e in tw:
            cx.ob(e.facts.entails(gt(e.val, T0)) and e.old == T0, s, 'the term only grows', e.where(), p)
        if newterm and p.outcome == 'return':
            cx.ob(p.final(thisloc(S + 'status')) == FOL or p.facts.entails(eq(p.final(thisloc(S + 'status')), FOL)), s, 'a newer term makes a follower', None, p)
            l = p.final(thisloc(S + 'leader'))
            cx.ob(bool(sw(p, 'leader')), s, 'the leader of an older term is forgotten', None, p)
            v = p.final(thisloc(S + 'votedFor'))
            cx.ob(is_blocked(v) or (cleared(p, 'votedFor') and p.facts.entails(emp(l))), s, 'a newer term starts without a vote, or blocked when its leader is known', None, p)


@rule('R09', 'one-vote', 'a vote is only recorded when none is, for the current term, without a known leader')
def r09_vote(cx):
    for f, p in every(cx):
        s = short(f['name'])
        tw = sw(p, 'term')
        newterm = bool(tw) and p.facts.entails(gt(tw[-1].val, T0))
        for e in sw(p, 'votedFor'):
            if newterm:
                continue
            cx.ob(e.facts.entails(emp(V0)), s, 'a vote already given is not replaced', e.where(), p)
            if is_blocked(e.val):
                continue
            cx.ob(e.facts.entails(AND(eq(ST0, FOL), emp(L0))), s, 'only a follower without a leader votes', e.where(), p)
            cx.ob(e.facts.entails(eq(T0, P(f, 0))), s, 'only in the current term', e.where(), p)
            cx.ob(e.val == ME or e.val == P(f, 1), s, 'the vote recorded is the one granted', e.where(), p)


@rule('R09', 'shutdown', 'after shutdown nothing changes any more; other role changes are stepping down from candidacy or on a newer term')
def r09_shut(cx):
    n = 0
    for f, p in every(cx):
        s = short(f['name'])
        tw = sw(p, 'term')
        for e in sw(p):
            if e.val == SHU:
                n += 1
            if s.endswith('::shutdown'):
                cx.ob(field_of(e.loc) in ('status', 'leadershipMarker') and (e.val == SHU or e.val == C(-1)), s, 'shutting down only changes the role', e.where(), p)
                continue
            cx.ob(e.facts.entails(ne(ST0, SHU)), s, 'a node that is shut down takes part in nothing', e.where(), p)
            cx.ob(e.val != SHU, s, 'only shutdown shuts down', e.where(), p)
        for e in sw(p, 'status'):
            if e.val == FOL:
                cx.ob((bool(tw) and p.facts.entails(gt(tw[-1].val, T0))) or e.facts.entails(AND(eq(ST0, CAN), eq(T0, P(f, 0)))), s, 'a node becomes a follower again only on a newer term or by giving up its candidacy of this term', e.where(), p)
        if p.outcome == 'return' and sw(p, 'status'):
            st = p.final(thisloc(S + 'status'))
            if st != LEA and not p.facts.entails(eq(st, LEA)):
                cx.ob(p.final(thisloc(S + 'leadershipMarker')) == C(-1), s, 'only a leader has a leadership marker', None, p)
    cx.ob(n > 0, 'RaftState', 'shutdown is recorded')
    f = cx.fn(S + 'shutdown')
    for p in spaths(cx, f):
        st = p.final(thisloc(S + 'status'))
        cx.ob(st == SHU or p.facts.entails(eq(st, SHU)), 'RaftState::shutdown', 'the node is shut down afterwards', None, p)


def table(cx, name, acc, effect):
    f = cx.fn(S + name)
    n = {True: 0, False: 0}
    for p, b, fx in bool_cases(spaths(cx, f)):
        n[b] += 1
        a = acc(f, p, fx)
        s = 'RaftState::' + name
        if b:
            cx.ob(a is True, s, 'success only when all conditions hold', None, p)
            cx.ob(effect(f, p, fx), s, 'success has its effect', None, p)
        else:
            cx.ob(a is False, s, 'refused only when some condition fails', None, p)
            cx.ob(not sw(p) and not p.calls('quarkdb::RaftJournal::setCurrentTerm') and not [e for e in p.events if e.kind == 'write' and e.loc == thisloc(S + 'currentSnapshot')], s, 'a refusal changes nothing', None, p)
    cx.ob(n[True] and n[False], 'RaftState::' + name, 'both outcomes exist')


def tri(fx, *conds):
    """True when all hold, False when one surely fails, else None"""
    if all(fx.entails(c) for c in conds):
        return True
    if any(fx.entails(tneg(c)) for c in conds):
        return False
    return False if fx.entails(tneg(AND(*conds))) else None


def notmember(fx):
    for l in fx.all():
        if l[0] in ('ne', 'eq') and len(l[1]) == 1:
            t = l[1][0][0]
            if t[0] == 'call' and t[1] in PURE and fx.entails(eq(t, ZERO)):
                return True
    return False


@rule('R09', 'decisions', 'each transition succeeds exactly under its conditions and a refusal has no effect')
def r09_tables(cx):
    def fin(p, x):
        return p.final(thisloc(S + x))

    def cand(f, p, fx):
        t = tri(fx, eq(P(f, 0), T0), eq(ST0, FOL), emp(L0), emp(V0))
        return True if t is True and member(fx, ME) else False if t is False or notmember(fx) else None
    table(cx, 'becomeCandidate', cand, lambda f, p, fx: fin(p, 'status') == CAN)

    def asc(f, p, fx):
        t = tri(fx, eq(P(f, 0), T0), eq(ST0, CAN), emp(L0), eq(V0, ME))
        ap = p.calls('quarkdb::RaftJournal::appendLeadershipMarker')
        if t is True and ap and member(fx, ME) and fx.entails(ne(ap[0].ret, ZERO)):
            return True
        return False if t is False or notmember(fx) or (ap and fx.entails(eq(ap[0].ret, ZERO))) else None
    table(cx, 'ascend', asc, lambda f, p, fx: fin(p, 'status') == LEA)
    table(cx, 'grantVote', lambda f, p, fx: tri(fx, eq(P(f, 0), T0), eq(ST0, FOL), emp(L0), emp(V0)), lambda f, p, fx: fin(p, 'votedFor') == P(f, 1))
    table(cx, 'dropOut', lambda f, p, fx: tri(fx, eq(P(f, 0), T0), eq(ST0, CAN)), lambda f, p, fx: fin(p, 'status') == FOL)

    def obs(f, p, fx):
        t = P(f, 0)
        return tri(fx, ne(ST0, SHU), OR(gt(t, T0), AND(eq(t, T0), emp(L0))))
    table(cx, 'observed', obs, lambda f, p, fx: fin(p, 'leader') == P(f, 1) and fx.eqv(fin(p, 'term'), P(f, 0)))


# ------------------------------------------------------------------ R10
@rule('R10', 'snapshot', 'every change of the state ends with an atomic publication of a fresh snapshot holding exactly the state, under the lock')
def r10_snap(cx):
    n = 0
    for f, p in list(every(cx)) + [(cx.fn(S + 'RaftState'), q) for q in spaths(cx, cx.fn(S + 'RaftState'))]:
        if p.outcome != 'return':
            continue
        s = short(f['name'])
        ctor = s.endswith('RaftState::RaftState')
        ws = sw(p)
        pub = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(S + 'currentSnapshot') and not (ctor and e.val == NULL)]
        if not ws and not ctor:
            for e in pub:
                cx.ob(False, s, 'nothing is published without a change', e.where(), p) if not same_state(p, e) else None
            continue
        n += 1
        cx.ob(bool(pub) and all(w.n < pub[-1].n for w in ws), s, 'the last thing a change does to the state is publishing it', ws[-1].where() if ws else None, p)
        if not pub:
            continue
        cx.ob(same_state(p, pub[-1]), s, 'the snapshot published is the state', pub[-1].where(), p)
        for e in pub:
            cx.ob(e.val[0] == 'new', s, 'a published snapshot is a new object', e.where(), p)
            cx.ob(e.info == 'atomic', s, 'snapshots are exchanged atomically', e.where(), p)
            cx.ob(ctor or held(e, S + 'update'), s, 'publication is serialized by the state lock', e.where(), p)
            # no half-made state is published earlier
            cx.ob(e is pub[-1] or all(w.n < e.n for w in ws), s, 'no intermediate state is published', e.where(), p)
    cx.ob(n >= 6, 'RaftState', 'all transitions were seen')


def same_state(p, e):
    for x in FIELDS:
        have, want = p.final(('f', ('d', e.val), SN + x)), p.final(thisloc(S + x))
        if have is None or want is None:
            return False
        if have != want and not p.facts.eqv(have, want):
            if not (x in ('votedFor', 'leader') and cleared(p, x) and p.final(('f', ('f', ('d', e.val), SN + x), 'quarkdb::RaftServer::hostname')) == ('s', '')):
                return False
    return True


@rule('R10', 'persist-first', 'a term or vote is handed to the journal, together and unchanged, before it is published')
def r10_persist(cx):
    n = 0
    for f, p in every(cx):
        s = short(f['name'])
        ws = sw(p, 'term') + sw(p, 'votedFor')
        if not ws or p.outcome != 'return':
            continue
        n += 1
        pub = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(S + 'currentSnapshot')]
        js = [c for c in p.calls('quarkdb::RaftJournal::setCurrentTerm') if all(w.n < c.n for w in ws) and (not pub or c.n < pub[0].n)]
        cx.ob(bool(js), s, 'the journal is told after the last change and before publication', ws[-1].where(), p)
        for c in js:
            v = c.args[1]
            good = v == p.final(thisloc(S + 'votedFor')) or (cleared(p, 'votedFor') and v[0] == 'obj')
            cx.ob(p.facts.eqv(c.args[0], p.final(thisloc(S + 'term'))), s, 'the journal gets the term in effect', c.where(), p)
            cx.ob(good or p.final(thisloc(S + 'votedFor')) == v, s, 'the journal gets the vote in effect', c.where(), p)
            cx.ob(held(c, S + 'update'), s, 'the journal is updated under the state lock', c.where(), p)
    cx.ob(n > 0, 'RaftState', 'terms and votes change')


@rule('R10', 'serialized', 'the state is only read and written under the state lock, except by its constructor; snapshots are only touched atomically')
def r10_lock(cx):
    for f in public_methods(cx, CLS, ('RaftState',)):
        for p in cx.paths(f, opaque=OPQ, pure=PURE, reads=True):
            for e in p.events:
                if e.kind in ('write', 'read') and e.loc is not None and field_of(e.loc) in FIELDS:
                    cx.ob(held(e, S + 'update'), short(f['name']), '%s of %s is under the state lock' % (e.kind, field_of(e.loc)), e.where(), p)
    n = 0
    for k, f in cx.p.fn.items():
        if not k.startswith(CLS + '::'):
            continue
        atom = set()
        for x in walk(f['body']):
            if x.get('k') == 'call' and x.get('f', '').startswith('std::atomic_'):
                for y in walk(x):
                    atom.add(id(y))
        for x in walk(f['body']):
            if x.get('k') == 'mem' and x.get('f') == S + 'currentSnapshot':
                n += 1
                cx.ob(id(x) in atom, short(k), 'the snapshot pointer is only touched by atomic operations', '%s:%s' % (f['file'], x.get('l')))
    cx.ob(n >= 2, 'RaftState', 'the snapshot pointer is used')


@rule('R10', 'wake', 'a newer term and shutdown wake the waiters; a waiter looks for shutdown under the lock first')
def r10_wake(cx):
    for f, p in every(cx):
        s = short(f['name'])
        if p.outcome == 'return' and (sw(p, 'term') or s.endswith('::shutdown')):
            nt = [c for c in p.calls('std::condition_variable::notify_all') if last_field(c.objloc) == S + 'notifier']
            cx.ob(bool(nt), s, 'waiters are woken', None, p)
            cx.ob(all(held(c, S + 'update') or all(w.n < c.n for w in sw(p)) for c in nt), s, 'waiters are woken under the lock or after the change', None, p)
        for w in p.calls('~condition_variable(_any)?::wait'):
            cx.ob(last_field(w.objloc) == S + 'notifier' and held(w, S + 'update'), s, 'waits on the state notifier with its lock', w.where(), p)
            cx.ob(w.facts.entails(ne(ST0, SHU)), s, 'does not sleep after shutdown', w.where(), p)
    n = 0
    for name in ('wait', 'wait_until'):
        f = cx.fn(S + name)
        for p in spaths(cx, f):
            ws = p.calls('~condition_variable(_any)?::wait')
            if ws:
                n += 1
                cx.ob(any(P(f, 0) in w.args for w in ws), 'RaftState::' + name, 'waits at most for the given time', None, p)
            else:
                cx.ob(p.facts.entails(eq(ST0, SHU)), 'RaftState::' + name, 'returns at once only after shutdown', None, p)
    cx.ob(n >= 2, 'RaftState', 'waits exist')


@rule('R10', 'start', 'a node starts as a follower with the term and vote of its journal; a snapshot holds what it was given and is compared on every field')
def r10_start(cx):
    f = cx.fn(S + 'RaftState')
    s = 'RaftState::RaftState'
    for p in spaths(cx, f):
        cx.ob(is_ret(p.final(thisloc(S + 'term')), '~RaftJournal::getCurrentTerm$'), s, 'the term is that of the journal', None, p)
        cx.ob(is_ret(p.final(thisloc(S + 'votedFor')), '~RaftJournal::getVotedFor$'), s, 'the vote is that of the journal', None, p)
        cx.ob(p.final(thisloc(S + 'status')) == FOL and p.final(thisloc(S + 'leadershipMarker')) == C(-1), s, 'starts as a follower', None, p)
    for p in cx.paths(S + 'getSnapshot'):
        cx.ob(p.val == this(S + 'currentSnapshot') and bool(p.calls('~std::atomic_load')), 'RaftState::getSnapshot', 'hands out the published snapshot', None, p)
    f = [f for f in cx.p.methods(SN[:-2]) if f['name'].endswith('::equals') and 'shared_ptr' not in f['key']]
    cx.need(f, 'RaftStateSnapshot::equals')
    conds = AND(*[eq(('init', ('f', ('d', ('this',)), SN + x)), Engine.project(P(f[0], 0), SN + x)) for x in FIELDS])
    for p, b, fx in bool_cases(cx.paths(f[0])):
        cx.ob(fx.entails(conds) if b else fx.entails(tneg(conds)), 'RaftStateSnapshot::equals', 'equality is that of all five items', f[0]['file'], p)
    for f in cx.p.methods(SN[:-2]):
        if f['name'].endswith('RaftStateSnapshot::RaftStateSnapshot') and len(f['params']) == 5:
            for p in cx.paths(f):
                for i, x in enumerate(FIELDS):
                    cx.ob(p.final(thisloc(SN + x)) == P(f, i), 'RaftStateSnapshot', 'item %s is the one given' % x, f['file'], p)


@rule('R10', 'names', 'every role is shown under its own name')
def r10_names(cx):
    enum_strings(cx, 'quarkdb::statusToString', 'quarkdb::RaftStatus', {x: x for x in ('LEADER', 'FOLLOWER', 'CANDIDATE', 'SHUTDOWN')}, 'statusToString')


@rule('R09', 'blocked', 'the value that blocks a vote is not empty and is not the address of any server')
def r09_blocked(cx):
    g = cx.p.glob.get('quarkdb::RaftState::BLOCKED_VOTE')
    cx.need(g is not None, 'RaftState::BLOCKED_VOTE')
    strs = [x['v'] for x in walk(g['e']) if x.get('k') == 'str']
    cx.ob(len(strs) == 1 and strs[0] != '', 'RaftState::BLOCKED_VOTE', 'names a host that is not empty')
    neg = any(x.get('k') == 'un' and x.get('op') == '-' or (x.get('k') in ('int', 'num', 'c') and str(x.get('v', '')).startswith('-')) for x in walk(g['e']))
    cx.ob(neg or ':' in ''.join(strs), 'RaftState::BLOCKED_VOTE', 'carries a port no server has')
