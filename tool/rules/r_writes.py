"""Client writes: R16 (and the order of pending replies, C14)."""
from qdb.common import *
from rules.r_dispatch import dpaths, fld, emp, rets, anyof, SN, D, J, LEA

W = 'quarkdb::RaftWriteTracker::'
B = 'quarkdb::RaftBlockedWrites::'
OPQ = ('~RaftJournal::', '~RaftBlockedWrites::', '~PendingQueue::', '~StateMachine::', '~RedisDispatcher::dispatch', '~Transaction::toRedisRequest', '~RaftWriteTracker::applySingleCommit$')


@rule('R16', 'append', 'a write is appended and queued for its reply in one critical section, under the same position')
def r16_append(cx):
    f = cx.fn(W + 'append')
    idx, term, tx, queue, disp = [P(f, i) for i in range(5)]
    n = {True: 0, False: 0}
    s = 'RaftWriteTracker::append'
    for p in cx.paths(f, opaque=OPQ):
        ap = p.calls('~RaftJournal::append$')
        ins = p.calls('~RaftBlockedWrites::insert$')
        pend = p.calls('~PendingQueue::addPendingTransaction$')
        for e in ap + ins + pend:
            cx.ob(held(e, W + 'mtx'), s, 'append and queueing under the tracker lock', e.where(), p)
        for e in ap:
            cx.ob(e.facts.eqv(e.args[0], idx), s, 'appended at the given position', e.where(), p)
            ent = e.args[1]
            tr = p.calls('~Transaction::toRedisRequest$')
            cx.ob(len(tr) == 1 and repr(result(tr[0])) in repr(ent) and repr(term) in repr(ent), s, 'the entry is the transaction, in the given term', e.where(), p)
        for e in ins:
            cx.ob(e.facts.eqv(e.args[0], idx) and e.args[1] == queue, s, 'the queue of the client waits for this position', e.where(), p)
        for e in pend:
            cx.ob(e.facts.eqv(e.args[2], idx) and deref_of(e, queue), s, 'the transaction waits in its own queue for this position', e.where(), p)
        for e in ins + pend:
            cx.ob(any(a.n < e.n and e.facts.entails(ne(a.ret, ZERO)) for a in ap), s, 'only a write that is in the log is queued', e.where(), p)
        if p.outcome != 'return':
            continue
        yes = p.facts.entails(ne(p.val, ZERO))
        n[yes] += 1
        if yes:
            cx.ob(len(ap) == 1 and p.facts.entails(ne(ap[0].ret, ZERO)) and len(ins) == 1 and len(pend) == 1, s, 'accepted: in the log and queued for its reply', None, p)
            mv = [x for x in pend if x.args[1] == tx or x.args[1] == ('mv', tx)]
            cx.ob(bool(mv), s, 'the transaction queued is the one appended', None, p)
        else:
            cx.ob(len(ap) == 1 and p.facts.entails(eq(ap[0].ret, ZERO)), s, 'refused only when the log refuses', None, p)
    cx.ob(n[True] and n[False], s, 'accepts and refuses')
    for g, node in callers(cx, '~PendingQueue::addPendingTransaction$'):
        cx.ob(g['name'] in (W + 'append', 'quarkdb::Connection::addPendingTransaction'), short(g['name']), 'transactions are queued by the write tracker or the connection', g['file'])


def deref_of(e, queue):
    return queue in (e.obj, getattr(e, 'objloc', None)) or repr(queue) in repr(e.objloc) or repr(queue) in repr(e.obj)


@rule('R16', 'service', 'the position is taken and the write appended under the command lock, in the term of the leadership that was checked')
def r16_service(cx):
    f = cx.fn(D + 'service')
    n = 0
    s = 'service'
    for p in dpaths(cx, f):
        for e in p.calls('~RaftWriteTracker::append$'):
            n += 1
            z = [x for x in p.calls('~RaftJournal::getLogSize$') if x.n < e.n and e.facts.eqv(e.args[0], x.ret)]
            cx.ob(bool(z) and held(z[-1], D + 'raftCommand') and held(e, D + 'raftCommand'), s, 'position and append under one command lock', e.where(), p)
            sn = [x for x in p.calls('~RaftState::getSnapshot$') if e.facts.eqv(e.args[1], fld(x.ret, SN + 'term'))]
            cx.ob(any(e.facts.entails(eq(fld(x.ret, SN + 'status'), LEA)) for x in sn), s, 'in the term this node leads', e.where(), p)
            gq = p.calls('~Connection::getQueue$')
            cx.ob(bool(gq) and e.args[3] == result(gq[-1]) and repr(P(f, 0)) in repr(gq[-1].objloc), s, 'with the queue of the issuing connection', e.where(), p)
            ft = [x for x in p.calls('~LeaseFilter::transform$') if outv(x, 0) == e.args[2]]
            ck = p.calls('~StateMachine::getDynamicClock$')
            cx.ob(len(ft) == 1 and any(ft[0].args[1] == result(c) for c in ck), s, 'lease commands carry the clock of the leader', e.where(), p)
            if p.outcome == 'return':
                again = [x for x in p.calls('~RaftDispatcher::service$') if x.n > e.n]
                cx.ob(p.facts.entails(ne(e.ret, ZERO)) or (bool(again) and p.facts.entails(eq(e.ret, ZERO)) and p.val == again[-1].ret), s, 'a write the log refused is tried again from the start', e.where(), p)
                cx.ob(not again or p.facts.entails(eq(e.ret, ZERO)), s, 'a write that is in the log is not submitted twice', e.where(), p)
    cx.ob(n > 0, s, 'submits writes')


@rule('R16', 'apply', 'every committed entry is applied once, in order, through the queue that waits for it or directly')
def r16_apply(cx):
    f = cx.fn(W + 'updatedCommitIndex')
    s = 'updatedCommitIndex'
    k = 0
    for p in cx.paths(f, opaque=OPQ):
        for e in p.calls('~RaftWriteTracker::applySingleCommit$'):
            k += 1
            cx.ob(held(e, W + 'mtx'), s, 'applied under the tracker lock', e.where(), p)
            la = rets(p, 'StateMachine::getLastApplied')
            cx.ob(any(covers(p, e, e.args[0], add(v, C(1)), add(P(f, 0), C(1))) for v in la), s, 'every position after the last applied one up to the commit point, in order', e.where(), p)
    cx.ob(k > 0, s, 'applies entries')
    f = cx.fn(W + 'applySingleCommit')
    s = 'applySingleCommit'
    idx = P(f, 0)
    seen = set()
    opq = tuple(x for x in OPQ if 'applySingle' not in x)
    for p in cx.paths(f, opaque=opq):
        pop = [e for e in p.calls('~RaftBlockedWrites::popIndex$') if e.args[0] == idx]
        dp = p.calls('~PendingQueue::dispatchPending$')
        di = p.calls('~RedisDispatcher::dispatch')
        fe = p.calls('~RaftJournal::fetch$')
        ins = p.calls('~RaftBlockedWrites::insert$')
        if p.outcome == 'return':
            cx.ob(len(pop) == 1 and len(dp) + len(di) == 1, s, 'an entry is applied exactly once', None, p)
        for e in dp:
            seen.add('queue')
            cx.ob(e.args[1] == idx and bool(pop) and deref_of(e, pop[0].ret), s, 'the waiting queue applies this position', e.where(), p)
            if p.outcome == 'return':
                more = p.facts.entails(gt(e.ret, ZERO))
                cx.ob(more == bool(ins), s, 'a queue that waits for a later position is registered for it', e.where(), p)
            elif p.outcome == 'throw':
                cx.ob(p.facts.entails(AND(gt(e.ret, ZERO), le(e.ret, idx))), s, 'stops only when a queue goes backwards', e.where(), p)
            for i in ins:
                cx.ob(i.args[0] == e.ret and i.args[1] == pop[0].ret and i.facts.entails(gt(e.ret, idx)), s, 'the same queue, for the position it reported', i.where(), p)
        for e in di:
            seen.add('direct')
            cx.ob(bool(pop) and e.facts.entails(eq(pop[0].ret, ('null',))) or no_queue(e.facts, pop), s, 'applied directly only when nothing waits for it', e.where(), p)
            good = [x for x in fe if x.args[0] == idx and e.facts.entails(ok(x.ret))]
            cx.ob(bool(good) and repr(outv(good[0], 1)) in repr(e.args[0]) and e.args[-1] == idx, s, 'the entry of this position is applied, under this position', e.where(), p)
        if p.outcome == 'throw' and not dp:
            cx.ob(any(p.facts.entails(tneg(ok(x.ret))) for x in fe), s, 'stops only when the entry cannot be read', None, p)
    cx.ob(seen == {'queue', 'direct'}, s, 'handles both')
    f = cx.fn(W + 'applyCommits')
    for p in cx.paths(f, opaque=('~RaftJournal::', '~RaftWriteTracker::updatedCommitIndex$')):
        for e in p.calls('~RaftWriteTracker::updatedCommitIndex$'):
            cx.ob(is_ret(e.args[0], '~RaftJournal::getCommitIndex$'), 'applyCommits', 'applies up to the commit point', e.where(), p)
        for e in p.calls('~RaftJournal::waitForCommits$'):
            ci = e.args[0]
            cx.ob(is_ret(ci, '~RaftJournal::getCommitIndex$') or ci[0] == 'hav', 'applyCommits', 'waits past the commit point it applied', e.where(), p)


def no_queue(facts, pop):
    for e in pop:
        for l in facts.all():
            if l[0] == 'eq' and repr(e.ret) in repr(l):
                return True
    return False


@rule('R16', 'blocked', 'the table of waiting queues hands out each queue once and drops all of them on a flush')
def r16_blocked(cx):
    T = B + 'tracker'
    tl, t0 = thisloc(T), this(T)
    f = cx.fn(B + 'popIndex')
    seen = set()
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        er = [e for e in p.events if e.kind in ('write', 'call') and (getattr(e, 'loc', None) == tl or e.objloc == tl) and 'erase' in (e.name or '') + repr(e.val)[:400]]
        nul = p.val == ('null',) or 'null' in repr(p.val)[:60]
        seen.add(bool(nul))
        cx.ob(bool(er) != bool(nul), 'popIndex', 'a queue handed out is removed', None, p)
    cx.ob(seen == {True, False}, 'popIndex', 'finds and misses')
    for m in ('popIndex', 'insert', 'flush', 'size'):
        f = cx.fn(B + m)
        for p in cx.paths(f, opaque=('~PendingQueue::',)):
            for e in p.events:
                if (e.kind in ('write', 'read') and e.loc == tl) or (e.kind == 'call' and e.objloc == tl):
                    cx.ob(held(e, B + 'mtx'), m, 'the table is used under its lock', e.where(), p)
    f = cx.fn(B + 'insert')
    for p in cx.paths(f):
        w = [e for e in p.events if e.kind == 'write' and loc_root_is(e.loc, tl)]
        cx.ob(any(e.val == P(f, 1) and repr(P(f, 0)) in repr(e.loc) for e in w) or any(repr(P(f, 1)) in repr(e.val) and repr(P(f, 0)) in repr(e.val) for e in w), 'insert', 'the queue is stored under its position', None, p)
    f = cx.fn(B + 'flush')
    for p in cx.paths(f, opaque=('~PendingQueue::',)):
        fl = p.calls('~PendingQueue::flushPending$')
        for e in fl:
            cx.ob(e.args[0] == P(f, 0), 'flush', 'every waiting queue is answered with the given reply', e.where(), p)
        cx.ob(p.final(tl) != t0 and size_zero(p, tl), 'flush', 'the table is empty afterwards', None, p)
    cx.ob(any(p.calls('~PendingQueue::flushPending$') for p in cx.paths(f, opaque=('~PendingQueue::',))), 'flush', 'waiting queues are flushed')
    f = cx.fn(W + 'flushQueues')
    for p in cx.paths(f, opaque=OPQ):
        fl = p.calls('~RaftBlockedWrites::flush$')
        cx.ob(len(fl) == 1 and fl[0].args[0] == P(f, 0) and held(fl[0], W + 'mtx'), 'flushQueues', 'flushes the table under the tracker lock', None, p)


def loc_root_is(loc, root):
    while loc is not None:
        if loc == root:
            return True
        loc = loc[1] if isinstance(loc, tuple) and len(loc) > 1 and isinstance(loc[1], tuple) else None
    return False


def size_zero(p, loc):
    v = p.final(loc)
    ms, base = muts(v)
    return (ms and ms[-1][0].endswith('::clear')) or v in (('s', ''),) or p.facts.entails(eq(size(v), ZERO)) or (isinstance(v, tuple) and v[0] in ('ctor', 'empty', 'obj') and 'map' in repr(v)[:80])


@rule('R16', 'lost', 'a node that follows or steps down answers every write still waiting')
def r16_lost(cx):
    DI = 'quarkdb::RaftDirector::'
    ops = ('~RaftState::', '~RaftWriteTracker::', '~Publisher::', '~StateMachine::', '~RaftJournal::', '~RequestCounter', '~HeartbeatTracker', '~RaftReplicator::', '~RaftLease::', '~RaftDirector::(runForLeader|checkBasicSanity)$', '~quarkdb::Formatter::')
    f = cx.fn(DI + 'followerLoop')
    k = 0
    for p in cx.paths(f, opaque=ops):
        for e in p.calls('~RaftState::wait$'):
            k += 1
            fl = [x for x in p.calls('~RaftWriteTracker::flushQueues$') if x.n < e.n and x.loops == e.loops]
            cx.ob(bool(fl), 'followerLoop', 'waiting writes are answered before a follower waits', e.where(), p)
            for x in fl:
                cx.ob(any(repr(result(c)) in repr(x.args) for c in p.calls('~Formatter::err$')), 'followerLoop', 'answered as unavailable', x.where(), p)
    cx.ob(k > 0, 'followerLoop', 'waits')
    f = cx.fn(DI + 'leaderLoop')
    k = 0
    for p in cx.paths(f, opaque=ops):
        for e in p.calls('~RaftState::observed$'):
            k += 1
            fl = [x for x in p.calls('~RaftWriteTracker::flushQueues$') if x.n > e.n]
            cx.ob(bool(fl), 'leaderLoop', 'a leader that steps down answers the waiting writes', e.where(), p)
    cx.ob(k > 0, 'leaderLoop', 'steps down')
    f = cx.fn(D + 'appendEntries')
    for p in dpaths(cx, f):
        for e in p.calls('~RaftJournal::(removeEntries|append)$'):
            cx.ob(any(x.n < e.n for x in p.calls('~WriteTracker::flushQueues$')), 'appendEntries', 'writes waiting from an earlier leadership are answered before entries of another leader are taken', e.where(), p)
    dt = [g for g in cx.p.fn.values() if g['name'] == W + '<dtor>' or g['name'].endswith('RaftWriteTracker::~RaftWriteTracker')]
    cx.need(dt, 'destructor of RaftWriteTracker')
    for g in dt:
        for p in cx.paths(g, opaque=('~RaftJournal::', '~RaftWriteTracker::flushQueues$', '~quarkdb::Formatter::')):
            if p.outcome not in ('return', 'end', None):
                continue
            fl = p.calls('~RaftWriteTracker::flushQueues$')
            jn = p.calls('~::join$')
            cx.ob(len(fl) >= 1, '~RaftWriteTracker', 'waiting writes are answered when the tracker goes away', None, p)
            cx.ob(bool(jn) and (not fl or jn[0].n < fl[-1].n), '~RaftWriteTracker', 'after the applying thread is gone', None, p)
