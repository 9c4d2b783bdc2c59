"""Replication, commit point and leadership lease: R13, R14."""
from qdb.common import *
from rules.r_dispatch import fld, emp, rets, anyof, SN, ST, LEA, SHU

CT = 'quarkdb::RaftCommitTracker::'
MT = 'quarkdb::RaftMatchIndexTracker::'
TR = 'quarkdb::RaftReplicaTracker::'
RP = 'quarkdb::RaftReplicator::'
LS = 'quarkdb::RaftLease::'
LC = 'quarkdb::RaftLastContact::'
DI = 'quarkdb::RaftDirector::'
AR = 'quarkdb::RaftAppendEntriesResponse::'
PR = TR + 'PendingResponse::'
HT = 'quarkdb::RaftHeartbeatTracker::'
Q = 'quarkdb::calculateQuorumSize'
FIRST, SECOND = 'std::pair::first', 'std::pair::second'
OPQ = ('~RaftJournal::', '~RaftState::', '~RaftTalker', '~RaftParser', '~RaftMatchIndexTracker', '~RaftLastContact', '~RaftTrimmingBlock', '~RaftResilverer', '~streamUpdates$', '~sendPayload$',
       '~triggerResilvering$', '~updateStatus$', '~buildPayload$', '~retrieve_response$', '~retrieve_heartbeat', '~RaftCommitTracker::', '~RaftLease::', '~setTargets$', '~RaftServer::toString', '~OnlineTracker::hasBeenOffline')


def ranked(p, v, cont, getter):
    """v is the element at a rank of the ascending list of one value per entry of the map cont:
    returns ({terms that are the number of entries}, rank) or None"""
    if not is_call(v, '[]') or not is_call(v[2], 'sorted') or len(v[2]) != 3:
        return None
    X, T = v[2][2], v[3]
    sizes = {size(v[2]), size(X), size(cont)}
    zero = [e for e in p.events if e.kind == 'loop' and e.info == 'zero']
    if X[0] != 'hav':
        # no entry at all: nothing was collected
        return (sizes, T) if zero and (X == ('ctor', 'std::vector', ()) or X[0] == 'mut' and X[1].endswith('::resize')) else None
    loc = X[2]
    fills = [(e, e.val, e.loc[2]) for e in p.events if e.kind == 'write' and e.loc[0] == 'ix' and e.loc[1] == loc]
    fills += [(e, e.args[0], None) for e in p.calls('~vector::push_back$', '~vector::emplace_back$') if e.obj is not None and e.obj[0] == 'hav' and e.obj[2] == loc]
    if len(fills) != 1:
        return None
    e, val, idx = fills[0]
    if not getter(val) or not any(visits(p, e.loops, t, lambda c: c == cont) and peel(t)[1] == [SECOND] for t in subterms(val) if t and isinstance(t[0], str)):
        return None
    if idx is not None:
        pre = [x for x in p.events if x.kind == 'write' and x.loc == loc and x.n < e.n]
        rs = pre[-1].val if pre else NOTHING
        lr = loop_range(p, e, idx)
        if not (rs[0] == 'mut' and rs[1].endswith('::resize') and rs[3] == (size(cont),)) or lr is None or not is_zero(lr[0]) or lr[1] != 1 or lr[3]:
            return None
    else:
        b = [x for x in p.events if x.kind == 'loop' and x.info == 'begin' and x.val[1] in e.loops]
        ents = [a for x in b for vv, a, c in x.args if c == e.obj]
        first = ents[0] if ents else NOTHING
        if not (first == ('ctor', 'std::vector', ()) or is_call(first, '~clear$') or first[0] == 'mut' and first[1].endswith('::clear')):
            w = [x for x in p.events if x.kind == 'write' and x.loc == loc and x.n < e.n]
            if not (w and (w[-1].val == ('ctor', 'std::vector', ()) or 'clear' in repr(w[-1].how if hasattr(w[-1], 'how') else w[-1].name))):
                return None
    return sizes, T


@rule('R13', 'majority', 'the commit point moves to the highest position a majority of full members stores')
def r13_majority(cx):
    f = cx.fn(CT + 'recalculateCommitIndex')
    s = 'recalculateCommitIndex'
    cont, q = this(CT + 'targets'), this(CT + 'quorumSize')
    n = 0
    for p in cx.paths(f, opaque=('~updateCommitIndex$', '~RaftJournal::')):
        up = p.calls('~RaftCommitTracker::updateCommitIndex$', '~RaftJournal::setCommitIndex$')
        none = p.facts.entails(eq(size(cont), ZERO)) or p.facts.entails(eq(('call', 'begin', cont), ('call', 'end', cont)))
        if p.outcome == 'return' and not none:
            cx.ob(len(up) == 1, s, 'decides on the commit point when there are followers', None, p)
        for e in up:
            zero = any(x.kind == 'loop' and x.info == 'zero' for x in p.events)
            if none and not zero:
                cx.ob(False, s, 'moves nothing without followers', e.where(), p)
                continue
            r = ranked(p, e.args[0], cont, lambda v: last_field(v[1]) == MT + 'matchIndex' if v[0] == 'init' else is_ret(v, '~MatchIndexTracker::get$'))
            cx.ob(r is not None, s, 'picks from the sorted positions of all followers that count', e.where(), p)
            if r is None:
                continue
            n += 1
            cx.ob(any(sub(r[1], add(z, C(1))) == sub(ZERO, q) for z in r[0]), s, 'the position picked is stored by a quorum, the leader included', e.where(), p)
    cx.ob(n > 0, s, 'picks a position')
    f = cx.fn(CT + 'updateCommitIndex')
    s = 'updateCommitIndex'
    n = 0
    new = P(f, 0)
    for p in cx.paths(f, opaque=('~RaftJournal::',)):
        cur = rets(p, 'RaftJournal::getCommitIndex')
        st = p.calls('~RaftJournal::setCommitIndex$')
        for e in st:
            n += 1
            cx.ob(e.facts.eqv(e.args[0], new) and any(e.facts.entails(ge(new, c)) for c in cur), s, 'the commit point never moves back', e.where(), p)
        if p.outcome == 'return':
            cx.ob(bool(st) or any(p.facts.entails(lt(new, c)) for c in cur), s, 'a position that is not behind is committed', None, p)
            for e in p.events:
                if e.kind == 'write' and last_field(e.loc) == CT + 'commitIndex':
                    cx.ob(bool(st) and e.val == new, s, 'remembers only what it committed', e.where(), p)
    cx.ob(n > 0, s, 'commits')
    f = cx.fn(CT + 'updated')
    s = 'updated'
    n = 0
    for p in cx.paths(f, opaque=('~recalculateCommitIndex$',)):
        rc = p.calls('~recalculateCommitIndex$')
        for e in rc:
            n += 1
            cx.ob(held(e, CT + 'mtx'), s, 'recomputes under the lock', e.where(), p)
        if p.outcome == 'return':
            cx.ob(bool(rc) or p.facts.entails(le(P(f, 0), this(CT + 'commitIndex'))), s, 'progress past the commit point is looked at', None, p)
    cx.ob(n > 0, s, 'recomputes')
    f = cx.fn(MT + 'update')
    s = 'RaftMatchIndexTracker::update'
    n = 0
    for p in cx.paths(f, opaque=('~RaftCommitTracker::',)):
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == MT + 'matchIndex']
        cx.ob(len(w) >= 1 and w[-1].val == P(f, 0), s, 'remembers the reported position', None, p)
        up = p.calls('~RaftCommitTracker::updated$')
        n += len(up)
        cx.ob(len(up) == 1 and bool(w) and w[-1].n < up[0].n and p.facts.eqv(up[0].args[0], P(f, 0)), s, 'then reports it', None, p)
    cx.ob(n > 0, s, 'reports progress')
    for nm, ok_ in ((CT + 'recalculateCommitIndex', {CT + 'updated'}), (CT + 'updateCommitIndex', {CT + 'recalculateCommitIndex'}), (CT + 'updated', {MT + 'update'}),
                    ('quarkdb::RaftJournal::setCommitIndex', {CT + 'updateCommitIndex', CT + 'runAutoCommit', 'quarkdb::RaftDispatcher::appendEntries'})):
        for g, node in callers(cx, nm):
            cx.ob(g['name'] in ok_ or g['name'].startswith(CT) and nm.startswith(CT), short(g['name']), short(nm) + ' is called only on progress of a follower', g['file'])


@rule('R13', 'members', 'only full members count, with their own majority')
def r13_members(cx):
    f = cx.fn(CT + 'updateTargets')
    s = 'RaftCommitTracker::updateTargets'
    trgt = P(f, 0)
    tl = ('f', ('d', ('this',)), CT + 'targets')
    n = 0
    for p in cx.paths(f, opaque=('~getHandlerInternal$', '~AssistedThread::'), pure=(Q,)):
        if p.outcome != 'return':
            cx.ob(p.facts.entails(le(('call', Q, add(size(trgt), C(1))), ZERO)) or p.facts.entails(ne(size(trgt), ZERO)) or p.facts.entails(ge(size(trgt), C(1))), s, 'gives up only on an impossible quorum', None, p)
            continue
        for e in p.events:
            if e.kind in ('write', 'app') and set(loc_fields(e.loc)) & {CT + 'targets', CT + 'quorumSize'} or e.kind == 'call' and e.name.startswith('quarkdb::AssistedThread::'):
                cx.ob(held(e, CT + 'mtx'), s, 'changes under the lock', e.where(), p)
        qw = last_written(p, ('f', ('d', ('this',)), CT + 'quorumSize'))
        cx.ob(qw == ('call', Q, add(size(trgt), C(1))), s, 'the quorum is the majority of the followers and the leader', None, p)
        jn = p.calls('~AssistedThread::join$', '~AssistedThread::stop$')
        cl = [e for e in p.events if e.kind == 'write' and e.loc == tl and e.val == ('ctor', 'std::map', ()) or e.kind == 'call' and e.name.endswith('map::clear') and e.objloc == tl]
        st = p.calls('~AssistedThread::reset$')
        for e in st:
            cx.ob(e.facts.entails(eq(qw, C(1))) if qw else False, s, 'commits alone only when alone', e.where(), p)
            cx.ob(any(x.n < e.n for x in jn), s, 'after the previous one stopped', e.where(), p)
        cx.ob(bool(st) or p.facts.refutes(eq(qw or NOTHING, C(1))), s, 'a single node commits by itself', None, p)
        cx.ob(bool(jn) and all(jn[0].n < e.n for e in p.events if e.kind == 'write' and loc_fields(e.loc)[-1:] in ([CT + 'targets'], [CT + 'quorumSize'])), s, 'committing alone ends before the targets change', None, p)
        cx.ob(bool(cl), s, 'forgets the previous targets', None, p)
        w = [e for e in p.events if e.kind == 'write' and e.loc[0] == 'ix' and e.loc[1] == tl]
        for e in w:
            n += 1
            h = p.calls('~RaftCommitTracker::getHandlerInternal$')
            cx.ob(visits(p, e.loops, e.loc[2], lambda c: c == trgt) and any(x.args[0] == e.loc[2] and repr(x.ret) in repr(e.val) for x in h) and all(c.n < e.n for c in cl), s, 'every given target counts, with its own progress', e.where(), p)
        cx.ob(bool(w) or p.facts.entails(le(size(trgt), ZERO)) or p.facts.entails(eq(size(trgt), ZERO)), s, 'no target is left out', None, p)
    cx.ob(n > 0, s, 'sets targets')
    handlers(cx, CT, MT)
    f = cx.fn(RP + 'reconfigure')
    s = 'reconfigure'
    n = 0
    for p in cx.paths(f, opaque=OPQ + ('~all_servers_except_myself$',)):
        mb, me = rets(p, 'RaftJournal::getMembership'), rets(p, 'RaftState::getMyself')
        full = [e for e in p.calls('~all_servers_except_myself$') if e.args[0] == Engine.project(mb[-1], 'quarkdb::RaftMembership::nodes') and e.args[1] in me] if mb else []
        up = p.calls('~RaftCommitTracker::updateTargets$', '~RaftLease::updateTargets$')
        for e in up:
            n += 1
            cx.ob(any(e.args[0] == result(x) for x in full), s, 'the followers that count are the other full members', e.where(), p)
        tg = p.calls('~RaftReplicator::setTargets$')
        if p.outcome == 'return':
            cx.ob({short(e.name) for e in up} == {'RaftCommitTracker::updateTargets', 'RaftLease::updateTargets'}, s, 'commit point and lease follow the membership', None, p)
            cx.ob(len(tg) == 1, s, 'and so does replication', None, p)
            if len(tg) == 1:
                v = tg[0].args[0]
                ob = Engine.project(mb[-1], 'quarkdb::RaftMembership::observers') if mb else NOTHING
                ms, base = muts(v)
                pb = p.calls('~vector::push_back$', '~vector::emplace_back$')
                ok_ = base in [result(x) for x in full] and p.facts.entails(le(size(ob), ZERO))
                fo = folds(p, v)
                if fo is not None:
                    ent, cur, end, lid, ef = fo
                    ms2, b2 = muts(end)
                    ok_ = ent in [result(x) for x in full] and b2 == cur and len(ms2) == 1 and visits(p, [lid], ms2[0][1][0], lambda c: c == ob)
                else:
                    ok_ = ok_ or base in [result(x) for x in full] and not ms and (p.facts.entails(eq(size(ob), ZERO)) or p.facts.entails(eq(('call', 'begin', ob), ('call', 'end', ob))))
                cx.ob(ok_, s, 'all other members and all observers are replicated to', tg[0].where(), p)
    cx.ob(n > 0, s, 'reconfigures')
    f = cx.fn('~all_servers_except_myself$') if cx.p.fns('all_servers_except_myself') == [] else cx.p.fns('all_servers_except_myself')[0]
    s = 'all_servers_except_myself'
    nodes, me = P(f, 0), P(f, 1)
    n = 0
    for p in cx.paths(f):
        for e in p.calls('~vector::push_back$', '~vector::emplace_back$'):
            n += 1
            cx.ob(visits(p, e.loops, e.args[0], lambda c: c == nodes, whole=False) and e.facts.entails(ne(e.args[0], me)), s, 'a server other than this one', e.where(), p)
        for x in [x for x in p.events if x.kind == 'loop' and x.info == 'iterend']:
            pb = [e for e in p.calls('~vector::push_back$', '~vector::emplace_back$') if x.val[1] in e.loops]
            cx.ob(bool(pb) or any(l[0] == 'eq' and repr(me) in repr(l) for l in x.facts.all()), s, 'every other server is kept', None, p)
    cx.ob(n > 0, s, 'keeps servers')


def handlers(cx, cls, hcls):
    """every server has one handler, its own"""
    f = cx.fn(cls + 'getHandlerInternal')
    s = short(cls[:-2]) + '::getHandlerInternal'
    srv = P(f, 0)
    reg = this(cls + 'registrations')
    n = 0
    for p in cx.paths(f):
        w = [e for e in p.events if e.kind == 'write' and e.loc[0] == 'ix' and loc_fields(e.loc)[-1:] == [cls + 'registrations'] or e.kind == 'write' and e.loc[0] == 'ix' and cls + 'registrations' in loc_fields(e.loc)]
        for e in w:
            n += 1
            cx.ob(e.loc[2] == srv and (e.facts.entails(eq(('call', 'find', reg, srv), ('call', 'end', reg))) or e.facts.entails(eq(('call', 'count', reg, srv), ZERO))), s, 'a server keeps its progress once it has any', e.where(), p)
    cx.ob(n > 0, s, 'creates handlers')
    f = cx.fn(cls + 'getHandler')
    for p in cx.paths(f, opaque=('~getHandlerInternal$',)):
        for e in p.calls('~getHandlerInternal$'):
            cx.ob(held(e, cls + 'mtx') and e.args[0] == P(f, 0), short(cls[:-2]) + '::getHandler', 'under the lock, for the given server', e.where(), p)


@rule('R13', 'alone', 'a single node commits its whole log, and only while it is the only member')
def r13_alone(cx):
    f = cx.fn(CT + 'runAutoCommit')
    s = 'runAutoCommit'
    n = 0
    for p in cx.paths(f, opaque=('~RaftJournal::',)):
        for e in p.calls('~RaftJournal::setCommitIndex$'):
            n += 1
            cx.ob(e.facts.entails(eq(this(CT + 'quorumSize'), C(1))), s, 'commits only when its own vote is a quorum', e.where(), p)
            cx.ob(any(x.n < e.n and e.facts.eqv(e.args[0], sub(x.ret, C(1))) for x in p.calls('~RaftJournal::getLogSize$')), s, 'commits up to its last entry', e.where(), p)
            lp = e.loops[-1:] and [x for x in p.events if x.kind == 'loop' and x.val[1] == e.loops[-1] and x.info == 'begin']
            tr = [l for l in e.facts.all() if 'stopFlag' in repr(l) or 'terminationRequested' in repr(l)]
            cx.ob(bool(tr), s, 'not once it was asked to stop', e.where(), p)
    cx.ob(n > 0, s, 'commits')


@rule('R13', 'progress', 'progress of a follower is counted only as acknowledged, and only for entries of the current term')
def r13_progress(cx):
    n = {'main': 0, 'monitorAckReception': 0}
    term = lambda: fld(this(TR + 'snapshot'), SN + 'term')
    for name in n:
        f = cx.fn(TR + name)
        for p in cx.paths(f, opaque=OPQ):
            for e in p.calls('~RaftMatchIndexTracker::update$'):
                n[name] += 1
                F = e.facts
                rr = [x for x in p.calls('~retrieve_response$') if x.n < e.n]
                cx.ob(bool(rr) and F.entails(eq(rr[-1].ret, ('e', 'quarkdb::AppendEntriesReception::kOk'))) or bool(rr) and any(F.entails(eq(rr[-1].ret, ('e', v))) for v in cx.p.enumval if v.endswith('AppendEntriesReception::kOk')), name, 'only after an answer', e.where(), p)
                r = outv(rr[-1], 1) if rr else NOTHING
                g = lambda x: Engine.project(r, AR + x)
                cx.ob(F.entails(ne(g('outcome'), ZERO)), name, 'only when the follower accepted', e.where(), p)
                cx.ob(F.entails(le(g('term'), term())), name, 'not when the follower is in a later term', e.where(), p)
                cx.ob(F.eqv(e.args[0], sub(g('logSize'), C(1))), name, 'up to the last entry the follower has', e.where(), p)
                cx.ob(bool(rr) and rr[-1].args[1] is not None, name, 'of its answer', e.where(), p)
                if name == 'main':
                    sp = [x for x in p.calls('~RaftReplicaTracker::sendPayload$') if x.n < e.n]
                    cx.ob(bool(sp) and F.entails(ne(sp[-1].ret, ZERO)) and rr[-1].args[0] == outv(sp[-1], 3), name, 'the answer is the one to what was just sent', e.where(), p)
                    cx.ob(bool(sp) and F.entails(eq(outv(sp[-1], 6), term())), name, 'only when the last entry sent is of the current term', e.where(), p)
                    cx.ob(objptr(e) in [result(x) for x in p.calls('~RaftCommitTracker::getHandler$') if x.args[0] == this(TR + 'target')] or last_field(e.objloc) == TR + 'matchIndex' or TR + 'matchIndex' in repr(e.obj), name, 'progress of this follower', e.where(), p)
                else:
                    item = Engine.project(NOTHING, PR + 'sent') if not rr else fut_item(p, rr[-1])
                    cx.ob(item is not None, name, 'the answer belongs to a request in flight', e.where(), p)
                    if item is None:
                        continue
                    it = lambda x: Engine.project(item, PR + x)
                    cx.ob(F.entails(eq(it('lastEntryTerm'), term())), name, 'only when the last entry sent is of the current term', e.where(), p)
                    cx.ob(F.entails(eq(g('logSize'), add(it('pushedFrom'), it('payloadSize')))), name, 'the follower ends where the request ended', e.where(), p)
                    cx.ob(F.entails(eq(g('term'), term())), name, 'the follower answered in the current term', e.where(), p)
                    front = ('call', '[]', ZERO)
                    q = item[2] if is_call(item, '[]') else None
                    cx.ob(q is not None and is_zero(item[3]) and repr(TR + 'inFlight') in repr(q), name, 'requests are matched to answers in the order they were sent', e.where(), p)
            if name == 'monitorAckReception':
                # every way an answer is not as expected ends the streaming
                rr = p.calls('~retrieve_response$')
                up = p.calls('~RaftLastContact::heartbeat$', '~RaftReplicaTracker::updateStatus$')
                if p.outcome == 'return':
                    w = [x for x in p.events if x.kind == 'write' and last_field(x.loc) == TR + 'streamingUpdates']
                    cx.ob(bool(w) and tfalse(w[-1].val), name, 'streaming is over when the monitor stops', None, p)
    cx.ob(all(n.values()), 'progress', 'progress is counted in ' + ' '.join(k for k in n if n[k]))
    for g, node in callers(cx, MT + 'update'):
        cx.ob(g['name'] in (TR + 'main', TR + 'monitorAckReception'), short(g['name']), 'progress is counted by replication', g['file'])


def tfalse(v):
    return v in (('c', False), ('c', 0))


def objptr(e):
    """the reference a method was called through"""
    l = e.objloc if e.objloc is not None else e.obj
    while isinstance(l, tuple) and l and l[0] in ('init', 'd', 'hav'):
        l = l[-1] if l[0] == 'hav' else l[1]
    return l


def fut_item(p, rr):
    """the request in flight whose future was waited on, as it was when taken from the queue"""
    for x in reversed(p.events):
        if x.n < rr.n and x.kind == 'call' and x.name in ('std::queue::pop',):
            q = x.obj
            a = rr.args[0]
            item = ('call', '[]', q, ZERO)
            if a == Engine.project(item, PR + 'fut') or a[0] == 'hav' and last_field(a[2]) == PR + 'fut':
                return item
    return None


@rule('R13', 'payload', 'what is sent is a gapless run of log entries whose terms the leader may send, with a commit point read first')
def r13_payload(cx):
    f = cx.fn(TR + 'sendPayload')
    s = 'sendPayload'
    nxt = P(f, 1)
    T = fld(this(TR + 'snapshot'), SN + 'term')
    n = 0
    for p in cx.paths(f, opaque=OPQ):
        fe = p.calls('~RaftJournal::fetch$')
        bp = p.calls('~buildPayload$')
        ci = p.calls('~RaftJournal::getCommitIndex$')
        now = [e for e in p.events if e.kind == 'call' and e.name.endswith('steady_clock::now')]
        for e in p.calls('~RaftTalker::appendEntries$'):
            n += 1
            F = e.facts
            cx.ob(F.eqv(e.args[0], T), s, 'sent in the term of this leadership', e.where(), p)
            cx.ob(e.args[1] in rets(p, 'RaftState::getMyself'), s, 'sent as this node', e.where(), p)
            cx.ob(F.eqv(e.args[2], sub(nxt, C(1))), s, 'the entries follow the given position', e.where(), p)
            cx.ob(any(F.entails(ok(x.ret)) and F.eqv(x.args[0], sub(nxt, C(1))) and e.args[3] == outv(x, 1) and F.entails(le(outv(x, 1), T)) for x in fe), s, 'with the term of the entry before them, which is not of a later term', e.where(), p)
            cx.ob(any(e.args[4] == c.ret and all(c.n < b.n for b in bp) for c in ci), s, 'the commit point was read before the entries', e.where(), p)
            cx.ob(len(bp) == 1 and F.entails(ne(bp[0].ret, ZERO)) and e.args[5] == outv(bp[0], 2) and F.eqv(bp[0].args[0], nxt), s, 'with the entries from the log', e.where(), p)
        if p.outcome == 'return':
            sent = p.calls('~RaftTalker::appendEntries$')
            yes = p.facts.entails(ne(p.val, ZERO))
            cx.ob(yes == (len(sent) == 1), s, 'reports whether it sent', None, p)
            if sent:
                ct = [e for e in p.events if e.kind == 'write' and e.loc == ('d', P(f, 4)) or e.kind == 'write' and e.val in [result(x) for x in now]]
                cx.ob(any(x.n < sent[0].n and any(w.val == result(x) for w in ct) for x in now), s, 'the time of contact is taken before sending', None, p)
    cx.ob(n > 0, s, 'sends')
    f = cx.fn(TR + 'buildPayload')
    s = 'buildPayload'
    nxt, lim, ents, let = [P(f, i) for i in range(4)]
    n = 0
    for p in cx.paths(f, opaque=OPQ[:1] + ('~RaftEntry::fetchTerm$', '~Iterator::')):
        cur = p.calls('~Iterator::current$')
        yes = p.outcome == 'return' and p.facts.entails(ne(p.val, ZERO))
        it = p.calls('~RaftJournal::getIterator$')
        cx.ob(len(it) == 1 and it[0].args[0] == nxt and it[0].args[1] in (('c', True), C(1)), s, 'entries are read from the given position, which must exist', None, p)
        rs = p.calls('~vector::resize$')
        want = None
        for e in rs:
            want = e.args[0]
            ok_ = any(x.n < e.n and want == ('call', 'std::min', lim, sub(x.ret, nxt)) or want == ('call', 'std::min', sub(x.ret, nxt), lim) for x in p.calls('~RaftJournal::getLogSize$'))
            ok_ = ok_ or any(e.facts.entails(le(want, lim)) and e.facts.entails(le(want, sub(x.ret, nxt))) for x in p.calls('~RaftJournal::getLogSize$'))
            cx.ob(ok_, s, 'at most the limit, and at most what the log has', e.where(), p)
        for e in cur:
            n += 1
            va = [x for x in p.calls('~Iterator::valid$') if x.n < e.n]
            cx.ob(bool(va) and e.facts.entails(ne(va[-1].ret, ZERO)), s, 'reads only entries that exist', e.where(), p)
            dst = e.arglocs[0]
            if dst is not None and dst[0] == 'ix':
                cx.ob(want is not None and covers(p, e, dst[2], ZERO, want) if yes else True, s, 'entry i of the payload is entry i after the position, for all of them', e.where(), p)
            nx = [x for x in p.calls('~Iterator::next$') if x.n > e.n and x.loops[:1] == e.loops[:1]]
            if yes:
                cx.ob(len(nx) == 1, s, 'one step per entry', e.where(), p)
        ft = p.calls('~fetchTerm$')
        if yes:
            w = [e.val for e in p.events if e.kind == 'write' and e.loc == ('d', let) or e.kind == 'write' and e.loc[0] == 'var' and 'lastEntryTerm' in repr(e.loc)]
            v = pval(p, f, 3)
            cx.ob(v is not None, s, 'reports the term of the last entry', None, p)
            if v is not None:
                fo = folds(p, v)
                if fo is None:
                    cx.ob(v == C(-1), s, 'no term for no entries', None, p)
                else:
                    cx.ob(fo[0] == C(-1) and any(fo[2] == x.ret and fo[3] in x.loops for x in ft), s, 'the term reported is the one of the last entry', None, p)
                    T = fld(this(TR + 'snapshot'), SN + 'term')
                    cx.ob(fo[4].entails(le(fo[2], T)), s, 'no entry of a later term is sent', None, p)
                    for x in ft:
                        src = [c for c in cur if c.n < x.n and x.args[0] == outv(c, 0)]
                        cx.ob(bool(src), s, 'the term is the one of the entry read', x.where(), p)
    cx.ob(n > 0, s, 'collects entries')
    f = cx.fn(TR + 'streamUpdates')
    s = 'streamUpdates'
    n = 0
    for p in cx.paths(f, opaque=OPQ + ('~AssistedThread::', '~monitorAckReception$')):
        for e in p.calls('~queue::emplace$', '~queue::push$'):
            n += 1
            sp = [x for x in p.calls('~sendPayload$') if x.n < e.n]
            cx.ob(bool(sp) and e.facts.entails(ne(sp[-1].ret, ZERO)), s, 'only what was sent is in flight', e.where(), p)
            if not sp:
                continue
            x = sp[-1]
            a = list(e.args)
            if len(a) == 1:
                a = [Engine.project(a[0], PR + k) for k in ('fut', 'sent', 'pushedFrom', 'payloadSize', 'lastEntryTerm')]
            a = [y[1] if y[0] == 'mv' else y for y in a]
            cx.ob(a == [outv(x, 3), outv(x, 4), x.args[1], outv(x, 5), outv(x, 6)], s, 'the request in flight is described as it was sent', e.where(), p)
            cx.ob(held(e, TR + 'inFlightMtx'), s, 'under the lock', e.where(), p)
        for x in p.calls('~sendPayload$'):
            sh = [y for y in p.calls('~isSnapshotCurrent$') if y.n < x.n]
            cx.ob(bool(sh) and x.facts.entails(ne(sh[-1].ret, ZERO)), s, 'sends only while the leadership is current', x.where(), p)
        # the next request starts where this one ended
        for b in [y for y in p.events if y.kind == 'loop' and y.info == 'iterend']:
            for v, cur, end in b.args or ():
                sp = [x for x in p.calls('~sendPayload$') if x.args[1] == cur]
                if sp:
                    cx.ob(b.facts.eqv(end, add(cur, outv(sp[-1], 5))), s, 'the next request starts where this one ended', None, p)
    cx.ob(n > 0, s, 'streams')
    f = cx.fn(PR + 'PendingResponse')
    for p in cx.paths(f):
        for i, k in enumerate(('fut', 'sent', 'pushedFrom', 'payloadSize', 'lastEntryTerm')):
            w = [e.val for e in p.events if e.kind == 'write' and last_field(e.loc) == PR + k]
            cx.ob(bool(w) and P(f, i) in subterms(w[-1]), 'PendingResponse', k + ' is kept', f['file'], p)


def pval(p, f, i):
    """final value of the i-th reference parameter"""
    w = [e for e in p.events if e.kind == 'write' and loc_root_param(e.loc, f, i)]
    if w:
        return w[-1].val
    return None


def loc_root_param(loc, f, i):
    return loc == ('d', P(f, i)) or loc[0] == 'var' and loc[1] == f['params'][i].get('id') or loc == P(f, i)


@rule('R13', 'terms', 'a term of leadership starts without progress, and ends with its replication stopped')
def r13_terms(cx):
    f = cx.fn(RP + 'activate')
    s = 'activate'
    g = cx.fn(RP + 'deactivate')
    resets = {}
    for h in (f, g):
        resets[h['name']] = True
        for p in cx.paths(h, opaque=OPQ + ('~reconfigure$',)):
            if p.outcome != 'return':
                continue
            rs = p.calls('~RaftCommitTracker::reset$')
            rc = p.calls('~RaftReplicator::reconfigure$')
            if not rs or any(x.n < rs[-1].n for x in rc):
                resets[h['name']] = False
    cx.ob(resets[f['name']], s, 'progress reported in an earlier term is forgotten before replication starts')
    cx.ob(resets[g['name']], 'deactivate', 'progress is forgotten when leadership ends')
    for p in cx.paths(f, opaque=OPQ + ('~reconfigure$',)):
        if p.outcome != 'return':
            continue
        w = [e for e in p.events if e.kind == 'write' and e.loc == ('f', ('d', ('this',)), RP + 'snapshot')]
        rc = p.calls('~RaftReplicator::reconfigure$')
        cx.ob(len(rc) == 1 and bool(w) and w[-1].n < rc[0].n and w[-1].val == P(f, 0), s, 'replication starts for the given term', None, p)
        cx.ob(p.facts.entails(eq(size(this(RP + 'targets')), ZERO)) or p.facts.entails(eq(('call', 'begin', this(RP + 'targets')), ('call', 'end', this(RP + 'targets')))), s, 'nothing of an earlier term is still replicating', None, p)
    n = 0
    for p in cx.paths(g, opaque=OPQ):
        dl = [e for e in p.events if e.kind == 'delete']
        for e in dl:
            n += 1
            t = e.obj if e.obj is not None else e.val
            cx.ob(t is not None and any(visits(p, e.loops, x, lambda c: c == this(RP + 'targets')) for x in subterms(t) if x and isinstance(x[0], str)), 'deactivate', 'every replication ends', e.where(), p)
        rs = p.calls('~RaftCommitTracker::reset$')
        cl = [e for e in p.events if e.kind == 'write' and e.loc == ('f', ('d', ('this',)), RP + 'targets')]
        if p.outcome == 'return':
            z = any(x.kind == 'loop' and x.info == 'zero' for x in p.events) or p.facts.entails(eq(size(this(RP + 'targets')), ZERO))
            cx.ob(z or bool(dl) and all(d.n < r.n for d in dl for r in rs), 'deactivate', 'replication ends before its progress is forgotten', None, p)
            cx.ob(bool(cl) and cl[-1].val == ('ctor', 'std::map', ()), 'deactivate', 'no replication is left', None, p)
    cx.ob(n > 0, 'deactivate', 'ends replication')
    f = cx.fn(CT + 'reset')
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        cx.ob(last_written(p, ('f', ('d', ('this',)), CT + 'registrations')) == ('ctor', 'std::map', ()), 'RaftCommitTracker::reset', 'forgets all progress', None, p)
        cx.ob(last_written(p, ('f', ('d', ('this',)), CT + 'commitIndex')) == C(0), 'RaftCommitTracker::reset', 'forgets the commit point', None, p)
    f = cx.fn(TR + 'RaftReplicaTracker')
    n = 0
    for p in cx.paths(f, opaque=OPQ + ('~AssistedThread::',)):
        run = [e for e in p.events if e.kind == 'call' and (e.name == 'std::thread::thread' or e.name.endswith('AssistedThread::reset')) and ('main' in repr(e.args) or 'sendHeartbeats' in repr(e.args))]
        for e in run:
            n += 1
            sn = p.calls('~RaftState::getSnapshot$')
            my = fld(P(f, 1), SN + 'term')
            my2 = fld(this(TR + 'snapshot'), SN + 'term')
            F = e.facts
            cx.ob(any(any(F.entails(eq(m, fld(x.ret, SN + 'term'))) for m in (my, my2)) and (F.entails(eq(fld(x.ret, SN + 'status'), LEA)) or F.entails(eq(fld(x.ret, SN + 'status'), SHU)) or not_others(cx, F, fld(x.ret, SN + 'status'))) for x in sn), 'RaftReplicaTracker',
                  'replicates only in the term it leads', e.where(), p)
            cx.ob(any(F.entails(ne(t, m)) for m in rets(p, 'RaftState::getMyself') for t in (P(f, 0), this(TR + 'target'))), 'RaftReplicaTracker', 'never to itself', e.where(), p)
    cx.ob(n > 0, 'RaftReplicaTracker', 'starts replicating')


def not_others(cx, F, v):
    """v can only be leader or shutdown"""
    l = [('or',) + (eq(v, LEA), eq(v, SHU))]
    if F.entails(l[0]):
        return True
    oth = [('e', x) for x in cx.p.enumval if x.startswith('quarkdb::RaftStatus::') and x not in (LEA[1], SHU[1])]
    if all(F.refutes(eq(v, o)) for o in oth):
        return True
    return any(x[0] == 'or' and repr(LEA) in repr(x) and repr(SHU) in repr(x) and repr(v) in repr(x) for x in F.all())


# ---------------------------------------------------------------- lease
@rule('R14', 'deadline', 'the lease ends one lease duration after the last time a majority was in contact')
def r14_deadline(cx):
    f = cx.fn(LS + 'getNthLease')
    s = 'getNthLease'
    q, dur, cont = this(LS + 'quorumSize'), this(LS + 'leaseDuration'), this(LS + 'targets')
    nn = P(f, 0)
    n = 0
    for p in cx.paths(f, opaque=('~RaftLastContact::',)):
        if p.outcome != 'return':
            cx.ob(False, s, 'always answers', None, p)
            continue
        base = sub(p.val, dur)
        alone = [result(e) for e in p.events if e.kind == 'call' and e.name.endswith('steady_clock::now')]
        if base in alone:
            cx.ob(p.facts.entails(eq(q, C(1))), s, 'only a single node needs no contact', None, p)
            continue
        r = ranked(p, base, cont, lambda v: is_ret(v, '~RaftLastContact::get$') or v[0] == 'init' and last_field(v[1]) == LC + 'lastCommunication')
        cx.ob(r is not None, s, 'picks from the sorted contacts of all followers that count', None, p)
        if r is None:
            continue
        n += 1
        want = [sub(add(z, C(1)), nn) for z in r[0]]
        exact = r[1] in want
        low = is_zero(r[1]) and any(p.facts.entails(lt(w, ZERO)) or p.facts.entails(le(w, ZERO)) for w in want)
        cx.ob(exact and any(p.facts.entails(ge(w, ZERO)) for w in want) or low, s, 'the contact picked is not newer than the ones of a quorum, the leader included', None, p)
    cx.ob(n > 0, s, 'derives the lease from contacts')
    for name, arg in (('getDeadline', q), ('getShakyQuorumDeadline', add(q, C(1)))):
        f = cx.fn(LS + name)
        for p in cx.paths(f, opaque=('~getNthLease$',)):
            c = p.calls('~getNthLease$')
            cx.ob(len(c) == 1 and p.val == c[0].ret and p.facts.eqv(c[0].args[0], arg) and held(c[0], LS + 'mtx'), name, 'is the lease of ' + ('a quorum' if name == 'getDeadline' else 'a quorum and one more'), f['file'], p)
    f = cx.fn(LS + 'updateTargets')
    s = 'RaftLease::updateTargets'
    trgt = P(f, 0)
    tl = ('f', ('d', ('this',)), LS + 'targets')
    n = 0
    for p in cx.paths(f, opaque=('~getHandlerInternal$',), pure=(Q,)):
        if p.outcome != 'return':
            continue
        for e in p.events:
            if e.kind == 'write' and set(loc_fields(e.loc)) & {LS + 'targets', LS + 'quorumSize'}:
                cx.ob(held(e, LS + 'mtx'), s, 'changes under the lock', e.where(), p)
        cx.ob(last_written(p, ('f', ('d', ('this',)), LS + 'quorumSize')) == ('call', Q, add(size(trgt), C(1))), s, 'the quorum is the majority of the followers and the leader', None, p)
        cl = [e for e in p.events if e.kind == 'write' and e.loc == tl and e.val == ('ctor', 'std::map', ())]
        cx.ob(bool(cl), s, 'forgets the previous targets', None, p)
        w = [e for e in p.events if e.kind == 'write' and e.loc[0] == 'ix' and e.loc[1] == tl]
        for e in w:
            n += 1
            h = p.calls('~getHandlerInternal$')
            cx.ob(visits(p, e.loops, e.loc[2], lambda c: c == trgt) and any(x.args[0] == e.loc[2] and repr(x.ret) in repr(e.val) for x in h) and all(c.n < e.n for c in cl), s, 'every given target counts, with its own contact', e.where(), p)
        cx.ob(bool(w) or p.facts.entails(le(size(trgt), ZERO)) or p.facts.entails(eq(size(trgt), ZERO)), s, 'no target is left out', None, p)
    cx.ob(n > 0, s, 'sets targets')
    handlers(cx, LS, LC)


@rule('R14', 'contact', 'contact times only move forward and are taken before the request they stand for')
def r14_contact(cx):
    for cls, fld_, mtx in ((LC, 'lastCommunication', 'mtx'), (HT, 'lastHeartbeat', 'lastHeartbeatMutex')):
        f = cx.fn(cls + 'heartbeat')
        s = short(cls[:-2]) + '::heartbeat'
        cur, new = this(cls + fld_), P(f, 0)
        n = 0
        for p in cx.paths(f):
            w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == cls + fld_]
            for e in w:
                n += 1
                cx.ob((e.val == new and e.facts.entails(le(cur, new)) or e.val == cur) and held(e, cls + mtx), s, 'moves only forward, under the lock', e.where(), p)
            if p.outcome == 'return':
                cx.ob(bool(w) or p.facts.entails(le(new, cur)), s, 'newer contact is remembered', None, p)
        cx.ob(n > 0, s, 'remembers contact')
        g = cx.fn(cls + ('get' if cls == LC else 'getLastHeartbeat'))
        for p in cx.paths(g):
            rd = p.val == cur
            cx.ob(rd and any(e.kind == 'acq' for e in p.events), short(g['name']), 'the time remembered, read under the lock', g['file'], p)
        for g in writers(cx, cls + fld_):
            cx.ob(g['name'] == cls + 'heartbeat' or g.get('ctor') or g['name'].split('::')[-1] == g['name'].split('::')[-2], short(g['name']), 'contact is recorded only as a heartbeat', g['file'])
    n = {'main': 0, 'monitorAckReception': 0, 'sendHeartbeats': 0}
    T = fld(this(TR + 'snapshot'), SN + 'term')
    for name in n:
        f = cx.fn(TR + name)
        for p in cx.paths(f, opaque=OPQ):
            for e in p.calls('~RaftLastContact::heartbeat$'):
                n[name] += 1
                F = e.facts
                if name == 'sendHeartbeats':
                    tk = [x for x in p.calls('~RaftTalker::heartbeat$') if x.n < e.n]
                    now = [x for x in p.events if x.kind == 'call' and x.name.endswith('steady_clock::now') and result(x) == e.args[0]]
                    cx.ob(bool(tk) and bool(now) and now[0].n < tk[-1].n and (len(tk) < 2 or now[0].n > tk[-2].n), name, 'contact is counted from before the heartbeat was sent', e.where(), p)
                    rr = [x for x in p.calls('~retrieve_heartbeat_reply$') if x.n < e.n]
                    cx.ob(bool(rr) and bool(tk) and F.entails(ne(rr[-1].ret, ZERO)) and rr[-1].args[0] == tk[-1].ret, name, 'only when it was answered', e.where(), p)
                    if rr:
                        r = lambda x: Engine.project(outv(rr[-1], 1), 'quarkdb::RaftHeartbeatResponse::' + x)
                        cx.ob(F.entails(ne(r('nodeRecognizedAsLeader'), ZERO)), name, 'only when this node was recognised as leader', e.where(), p)
                        cx.ob(F.entails(le(r('term'), T)), name, 'not when the follower is in a later term', e.where(), p)
                    cx.ob(bool(tk) and F.eqv(tk[-1].args[0], T) and tk[-1].args[1] in rets(p, 'RaftState::getMyself'), name, 'the heartbeat is sent for the current leadership', e.where(), p)
                else:
                    rr = [x for x in p.calls('~retrieve_response$') if x.n < e.n]
                    cx.ob(bool(rr) and any(F.entails(eq(rr[-1].ret, ('e', v))) for v in cx.p.enumval if v.endswith('AppendEntriesReception::kOk')), name, 'only when the request was answered', e.where(), p)
                    r = outv(rr[-1], 1) if rr else NOTHING
                    cx.ob(F.entails(le(Engine.project(r, AR + 'term'), T)), name, 'not when the follower is in a later term', e.where(), p)
                    if name == 'main':
                        sp = [x for x in p.calls('~sendPayload$') if x.n < e.n]
                        cx.ob(bool(sp) and bool(rr) and e.args[0] == outv(sp[-1], 4) and rr[-1].args[0] == outv(sp[-1], 3), name, 'contact is counted from before the answered request was sent', e.where(), p)
                    else:
                        item = fut_item(p, rr[-1]) if rr else None
                        cx.ob(item is not None and e.args[0] == Engine.project(item, PR + 'sent'), name, 'contact is counted from before the answered request was sent', e.where(), p)
                        cx.ob(F.entails(eq(Engine.project(r, AR + 'term'), T)) and F.entails(ne(Engine.project(r, AR + 'outcome'), ZERO)), name, 'only when the follower accepted in the current term', e.where(), p)
            # later terms are always observed
            for rr in p.calls('~retrieve_response$', '~retrieve_heartbeat_reply$'):
                if name == 'monitorAckReception' and not p.facts.entails(eq(rr.ret, ('e', 'AppendEntriesReception::kOk'))) and not any(p.facts.entails(eq(rr.ret, ('e', v))) for v in cx.p.enumval if v.endswith('AppendEntriesReception::kOk')):
                    continue
                good = p.facts.entails(ne(rr.ret, ZERO)) if 'heartbeat' in rr.name else any(p.facts.entails(eq(rr.ret, ('e', v))) for v in cx.p.enumval if v.endswith('AppendEntriesReception::kOk'))
                if good and p.outcome == 'return':
                    term = Engine.project(outv(rr, 1), ('quarkdb::RaftHeartbeatResponse::' if 'heartbeat' in rr.name else AR) + 'term')
                    cx.ob(any(x.n > rr.n and x.args[0] == term for x in p.calls('~RaftState::observed$')), name, 'the term of every answer is observed', rr.where(), p)
    cx.ob(all(n.values()), 'contact', 'contact is counted in ' + ' '.join(k for k in n if n[k]))
    for g, node in callers(cx, LC + 'heartbeat'):
        cx.ob(g['name'] in (TR + 'main', TR + 'monitorAckReception', TR + 'sendHeartbeats', 'quarkdb::RaftVoteRegistry::observeTermsAndLeases'), short(g['name']), 'contact is counted by replication and elections', g['file'])


@rule('R14', 'step-down', 'a leader whose lease is over steps down, refuses waiting writes and stops replicating')
def r14_step_down(cx):
    f = cx.fn(DI + 'leaderLoop')
    s = 'leaderLoop'
    T = lambda: fld(P(f, 0), SN + 'term')
    n = 0
    O = OPQ + ('~RaftReplicator::', '~flushQueues$', '~purgeListeners$', '~StateMachine::', '~checkBasicSanity$', '~Formatter::', '~setReportingStatus$')
    for p in cx.paths(f, opaque=O):
        act, dea = p.calls('~RaftReplicator::activate$'), p.calls('~RaftReplicator::deactivate$')
        for e in act:
            cx.ob(any(e.facts.entails(eq(fld(P(f, 0), SN + 'leader'), m)) for m in rets(p, 'RaftState::getMyself')), s, 'replicates only as the leader', e.where(), p)
            cx.ob(e.args[0] == P(f, 0) or repr(P(f, 0)) in repr(e.args[0]), s, 'for the term it leads', e.where(), p)
        dl = p.calls('~RaftLease::getDeadline$')
        wt = p.calls('~RaftState::wait_until$', '~RaftState::wait$')
        for e in wt:
            now = [x for x in p.events if x.kind == 'call' and x.name.endswith('steady_clock::now') and x.n < e.n]
            cx.ob(bool(dl) and any(e.facts.entails(ge(d.ret, result(x))) for d in dl for x in now), s, 'goes on leading only while the lease lasts', e.where(), p)
            cx.ob(bool(dl) and e.args[0] == dl[-1].ret, s, 'looks again when the lease ends', e.where(), p)
            cx.ob(any(e.facts.entails(ne(x.ret, ZERO)) for x in p.calls('~isSnapshotCurrent$') if x.n < e.n), s, 'goes on only while the leadership is current', e.where(), p)
            sn = p.calls('~checkBasicSanity$')
            cx.ob(any(e.facts.entails(ne(x.ret, ZERO)) for x in sn), s, 'goes on only while its positions make sense', e.where(), p)
        if p.outcome != 'return':
            continue
        cx.ob(len(act) == 1 and len(dea) == 1 and act[0].n < dea[0].n, s, 'replication ends with the leadership', None, p)
        over = [d for d in dl if any(p.facts.entails(lt(d.ret, result(x))) for x in p.events if x.kind == 'call' and x.name.endswith('steady_clock::now'))]
        ended = any(p.facts.entails(eq(x.ret, ZERO)) for x in p.calls('~isSnapshotCurrent$'))
        if over:
            n += 1
            ob = [x for x in p.calls('~RaftState::observed$') if p.facts.eqv(x.args[0], add(T(), C(1)))]
            cx.ob(len(ob) == 1 and Engine.project(ob[0].args[1], 'quarkdb::RaftServer::hostname') == ('s', ''), s, 'steps down by moving to the next term', None, p)
            fl = p.calls('~RaftWriteTracker::flushQueues$')
            cx.ob(bool(fl) and bool(ob) and fl[0].n > ob[0].n, s, 'writes still waiting are refused, after stepping down', None, p)
            pl = p.calls('~purgeListeners$')
            cx.ob(bool(pl), s, 'subscribers are disconnected', None, p)
        else:
            cx.ob(ended, s, 'stops leading only when the leadership is not current or the lease is over', None, p)
    cx.ob(n > 0, s, 'steps down when the lease is over')
    f = cx.fn(DI + 'main')
    s = 'RaftDirector::main'
    seen = set()
    FOL = ('e', 'quarkdb::RaftStatus::FOLLOWER')
    for p in cx.paths(f, opaque=OPQ + ('~RaftHeartbeatTracker::', '~leaderLoop$', '~followerLoop$')):
        for e in p.calls('~leaderLoop$', '~followerLoop$'):
            lead = 'leader' in e.name
            seen.add(lead)
            sn = [x for x in p.calls('~RaftState::getSnapshot$') if x.n < e.n]
            cx.ob(bool(sn) and e.facts.entails(eq(fld(sn[-1].ret, SN + 'status'), LEA if lead else FOL)) and sn[-1].ret == e.args[0], s, 'plays the role the state says', e.where(), p)
            if lead:
                hb = [x for x in p.calls('~RaftHeartbeatTracker::heartbeat$') if x.n > e.n and 'now' in repr(x.args[0])]
                cx.ob(bool(hb) or p.outcome == 'throw', s, 'a former leader waits a full timeout before campaigning', e.where(), p)
            else:
                rf = [x for x in p.calls('~refreshRandomTimeout$') if x.n < e.n]
                cx.ob(bool(rf), s, 'every wait has a new random timeout', e.where(), p)
        if p.outcome == 'return':
            cx.ob(any(p.facts.entails(eq(fld(x.ret, SN + 'status'), SHU)) for x in p.calls('~RaftState::getSnapshot$')), s, 'ends only on shutdown', None, p)
    cx.ob(seen == {True, False}, s, 'plays both roles')


@rule('R14', 'timeout', 'an election timeout is due exactly when no heartbeat came for the random timeout, or once when asked for')
def r14_timeout(cx):
    f = cx.fn(HT + 'timeout')
    s = 'timeout'
    now, last, rnd, art = P(f, 0), this(HT + 'lastHeartbeat'), this(HT + 'randomTimeout'), this(HT + 'artificialTimeout')
    e_ = lambda x: ('e', 'quarkdb::TimeoutStatus::' + x)
    seen = set()
    for p in cx.paths(f):
        cx.ob(p.outcome == 'return', s, 'always answers', None, p)
        cx.ob(any(e.kind == 'acq' and last_field(e.loc) == HT + 'lastHeartbeatMutex' for e in p.events), s, 'under the lock', None, p)
        F = p.facts
        seen.add(p.val)
        late = gt(sub(now, last), rnd)
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == HT + 'artificialTimeout']
        if p.val == e_('kArtificial'):
            cx.ob(F.entails(ne(art, ZERO)) and len(w) == 1 and tfalse(w[0].val), s, 'asked for, and only once', None, p)
        else:
            cx.ob(F.entails(eq(art, ZERO)) and not w, s, 'not asked for', None, p)
            if p.val == e_('kYes'):
                cx.ob(F.entails(late), s, 'due when the random timeout passed', None, p)
            else:
                cx.ob(p.val == e_('kNo') and F.refutes(late), s, 'not due before', None, p)
    cx.ob(seen == {e_('kYes'), e_('kNo'), e_('kArtificial')}, s, 'reaches all answers')
    f = cx.fn(HT + 'triggerTimeout')
    for p in cx.paths(f):
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == HT + 'artificialTimeout']
        cx.ob(len(w) == 1 and w[0].val in (('c', True), C(1)) and held(w[0], HT + 'lastHeartbeatMutex'), 'triggerTimeout', 'asks for a timeout', f['file'], p)
    f = cx.fn(HT + 'refreshRandomTimeout')
    for p in cx.paths(f, opaque=('~RaftTimeouts::getRandom$',)):
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == HT + 'randomTimeout']
        cx.ob(len(w) == 1 and w[0].val in rets(p, 'RaftTimeouts::getRandom') and held(w[0], HT + 'lastHeartbeatMutex'), 'refreshRandomTimeout', 'draws a new random timeout', f['file'], p)
    RT = 'quarkdb::RaftTimeouts::'
    f = cx.fn(RT + 'RaftTimeouts', 3)
    for p in cx.paths(f):
        for i, k in enumerate(('timeoutLow', 'timeoutHigh', 'heartbeatInterval')):
            w = [e.val for e in p.events if e.kind == 'write' and last_field(e.loc) == RT + k]
            cx.ob(bool(w) and w[-1] == P(f, i), 'RaftTimeouts', k + ' is as given', f['file'], p)
    f = cx.fn(RT + 'getRandom')
    for p in cx.paths(f):
        a = [e for e in p.events if e.kind == 'acq' and (last_field(e.loc) or e.loc[-1]) == RT + 'genMutex']
        cx.ob(bool(a) and 'dist' in repr(p.val) + repr(p.events[-3:]), 'RaftTimeouts::getRandom', 'drawn under the lock of the generator', f['file'], p)
