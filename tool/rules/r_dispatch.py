"""Raft dispatcher: R11, R15, R17, R18, part of R16."""
from qdb.common import *

D = 'quarkdb::RaftDispatcher::'
CLS = 'quarkdb::RaftDispatcher'
J = 'quarkdb::RaftJournal::'
ST = 'quarkdb::RaftState::'
SN = 'quarkdb::RaftStateSnapshot::'
OPQ = ('~quarkdb::RaftState::', '~quarkdb::RaftJournal::', '~HeartbeatTracker', '~RaftVoteRequest::describe', '~StateMachine::', '~WriteTracker', '~Publisher::',
       '~RaftDispatcher::warnIfLagging', '~RaftReplicator::', '~ReplicationStatus::', '~quarkdb::Connection::', '~RaftParser::', '~RedisDispatcher::', '~LeaseFilter::',
       '~ParseUtils::', '~quarkdb::Formatter::', '~parseScanCommand', '~parseServer', '~parseFsyncPolicy', '~RaftTimeouts::toString', '~toVector')
PURE = ('contains', 'quarkdb::contains', '~RaftTimeouts::toString$', '~RaftHeartbeatTracker::getTimeouts$', '~RaftJournal::getClusterID$')
ROLE = 'quarkdb::RaftStatus::'
LEA, SHU = ('e', ROLE + 'LEADER'), ('e', ROLE + 'SHUTDOWN')


def dpaths(cx, f, **kw):
    return cx.paths(f, opaque=OPQ, pure=PURE, **kw)


def fld(ptr, f):
    return ('init', ('f', ('d', ptr), f))


def emp(v):
    return ne(('call', 'quarkdb::RaftServer::empty', v), ZERO)


def rets(p, name, upto=None):
    """values returned by calls of name on this path (nothing when it is pure: one value)"""
    return [result(e) for e in p.calls('~' + name + '$') if upto is None or e.n < upto]


def anyof(facts, vals, mk):
    return any(facts.entails(mk(v)) for v in vals)


def anyob(facts, objs, vals, mk):
    return any(facts.entails(mk(o, v)) for o in objs for v in vals)


def resp(p, cls, field):
    """member of the returned response"""
    return Engine.project(p.val, 'quarkdb::' + cls + '::' + field) if p.val is not None else NOTHING


def myself(cx):
    return ('call', ST + 'getMyself', this(D + 'state'))


outarg = outv


def is_my(v):
    return is_call(v, '~RaftState::getMyself$') or is_ret(v)


# ---------------------------------------------------------------- R11
V = 'quarkdb::RaftVoteRequest::'


@rule('R11', 'votes', 'exact decision table of the answer to a vote request')
def r11(cx):
    f = cx.fn(D + 'requestVote')
    req = P(f, 0)
    q = {k: Engine.project(req, V + k) for k in ('term', 'candidate', 'lastIndex', 'lastTerm')}
    pre = ne(P(f, 1), ZERO)
    n = {}
    for p in dpaths(cx, f):
        s = 'requestVote'
        F = p.facts
        obs = p.calls('~RaftState::observed$')
        gv = p.calls('~RaftState::grantVote$')
        hb = p.calls('~RaftHeartbeatTracker::heartbeat$')
        for e in p.events:
            if e.kind == 'call' and e.name.startswith((J, ST)) and not e.name.endswith(('getMyself',)):
                cx.ob(held(e, D + 'raftCommand'), s, 'answered under the command lock', e.where(), p)
        for e in obs + gv + hb:
            cx.ob(e.facts.entails(tneg(pre)), s, 'a pre-vote changes nothing', e.where(), p)
        bad = [e for e in p.events if e.kind == 'call' and e.name.startswith((J, ST)) and e.name.split('::')[-1] not in
               ('observed', 'grantVote', 'getMyself', 'getNodes', 'getSnapshot', 'getCommitIndex', 'getLogStart', 'getLogSize', 'fetch', 'getMembership')]
        cx.ob(not bad, s, 'a vote request changes only term and vote', bad[0].where() if bad else None, p)
        for e in obs:
            cx.ob(F.eqv(e.args[0], q['term']) and not F.refutes(emp(e.args[1])) and (F.entails(emp(e.args[1])) or Engine.project(e.args[1], 'quarkdb::RaftServer::hostname') == ('s', '')), s,
                  'the term of the request is observed, without a leader', e.where(), p)
        if p.outcome != 'return':
            continue
        snaps = p.calls('~RaftState::getSnapshot$')
        cx.need(snaps, 'state snapshot')
        vote = resp(p, 'RaftVoteResponse', 'vote')
        if not (isinstance(vote, tuple) and vote[0] == 'e'):
            cx.ob(False, s, 'the vote is decided', None, p)
            continue
        vote = vote[1].split('::')[-1]
        n[vote] = n.get(vote, 0) + 1
        t = resp(p, 'RaftVoteResponse', 'term')
        rs = [e for e in snaps if F.eqv(t, fld(e.ret, SN + 'term'))]
        cx.ob(bool(rs), s, 'the answer carries the current term', None, p)
        if not rs:
            continue
        sn = rs[-1].ret
        g = lambda x: fld(sn, SN + x)
        ci, ls, lz = rets(p, 'RaftJournal::getCommitIndex'), rets(p, 'RaftJournal::getLogStart'), rets(p, 'RaftJournal::getLogSize')
        fe = p.calls('~RaftJournal::fetch$')
        at_last = [e for e in fe if F.eqv(e.args[0], q['lastIndex'])]
        mine = [(e, z) for e in fe for z in lz if F.eqv(e.args[0], sub(z, C(1)))]
        nodes = rets(p, 'RaftState::getNodes') + rets(p, 'RaftJournal::getNodes')
        memb = lambda v: ne(('call', 'quarkdb::contains', v, q['candidate']), ZERO)
        if vote == 'GRANTED':
            cx.ob(anyof(F, rets(p, 'RaftState::getMyself'), lambda m: ne(q['candidate'], m)), s, 'granted: the candidate is another node', None, p)
            cx.ob(F.entails(le(g('term'), q['term'])), s, 'granted: the candidate is not behind in term', None, p)
            cx.ob(F.entails(pre) or F.entails(eq(g('term'), q['term'])), s, 'granted: the term is the current one', None, p)
            cx.ob(F.entails(OR(lt(g('term'), q['term']), emp(g('votedFor')), eq(g('votedFor'), q['candidate']))), s, 'granted: no other vote given in the term', None, p)
            cx.ob(any(F.entails(ok(e.ret)) and F.entails(OR(gt(q['lastTerm'], outarg(e, 1)), AND(eq(q['lastTerm'], outarg(e, 1)), ge(q['lastIndex'], sub(z, C(1)))))) for e, z in mine), s,
                  'granted: the log of the candidate is at least as up to date', None, p)
            cx.ob(anyof(F, ci, lambda c: OR(gt(q['lastIndex'], c))) or
                  any(F.entails(ok(e.ret)) and F.entails(eq(q['lastTerm'], outarg(e, 1))) and anyof(F, ci, lambda c: gt(add(q['lastIndex'], C(1)), c)) for e in at_last), s,
                  'granted: no committed entry would be overwritten', None, p)
            known = [e for e in snaps if F.entails(emp(fld(e.ret, SN + 'leader')))]
            cx.ob(anyof(F, nodes, memb) or bool(known), s, 'granted: the candidate is a member, or no leader is known', None, p)
            if not F.entails(pre):
                cx.ob(len(gv) == 1 and gv[0].args[0] == q['term'] and gv[0].args[1] == q['candidate'] and F.entails(ne(gv[0].ret, ZERO)), s, 'granted: the vote was recorded', None, p)
                cx.ob(bool(obs) and obs[-1].n < rs[-1].n, s, 'granted: the term was observed before the state was read', None, p)
                cx.ob(bool(gv) and any(h.n < gv[0].n for h in hb), s, 'granted: the election timer is reset before the vote is given', None, p)
        elif vote == 'VETO':
            ok1 = anyof(F, nodes, lambda v: tneg(memb(v))) and any(F.entails(tneg(emp(fld(e.ret, SN + 'leader')))) for e in snaps)
            ok2 = anyof(F, ci, lambda c: le(q['lastIndex'], c)) and (anyof(F, ls, lambda v: lt(q['lastIndex'], v)) or anyof(F, ci, lambda c: le(add(q['lastIndex'], C(1)), c)) or
                                                                     any(F.entails(ok(e.ret)) and F.entails(ne(q['lastTerm'], outarg(e, 1))) for e in at_last))
            cx.ob(ok1 or ok2, s, 'a veto has one of the listed reasons', None, p)
            cx.ob(not gv, s, 'no vote is recorded with a veto', None, p)
            if ok1 and not ok2:
                cx.ob(not obs, s, 'the term of a disruptive non-member is ignored', None, p)
        else:
            cx.ob(any(F.entails(tneg(ok(e.ret))) for e in fe) or F.entails(gt(g('term'), q['term'])) or
                  (F.entails(eq(g('term'), q['term'])) and F.entails(tneg(emp(g('votedFor')))) and F.entails(ne(g('votedFor'), q['candidate']))) or
                  any(F.entails(lt(q['lastTerm'], outarg(e, 1))) or F.entails(AND(eq(q['lastTerm'], outarg(e, 1)), lt(q['lastIndex'], sub(z, C(1))))) for e, z in mine) or
                  any(F.entails(eq(e.ret, ZERO)) for e in gv), s, 'a refusal has one of the listed reasons', None, p)
            cx.ob(all(F.entails(eq(e.ret, ZERO)) for e in gv), s, 'no vote is recorded with a refusal', None, p)
    cx.ob(all(n.get(k) for k in ('GRANTED', 'VETO', 'REFUSED')), 'requestVote', 'grants, refuses and vetoes')


# ---------------------------------------------------------------- R15
A = 'quarkdb::RaftAppendEntriesRequest::'


def hb_table(cx, p, f, t, l, s):
    """obligations of the leader check shared by heartbeat and append; returns the snapshot when recognised"""
    F = p.facts
    obs = p.calls('~RaftState::observed$')
    snaps = [e for e in p.calls('~RaftState::getSnapshot$') if obs and e.n > obs[-1].n]
    for e in snaps:
        g = lambda x: fld(e.ret, SN + x)
        if F.entails(eq(g('term'), t)) and F.entails(eq(g('leader'), l)) and F.entails(ne(g('status'), SHU)) and obs[-1].args[0] == t and obs[-1].args[1] == l:
            return e.ret
    return None


def reject_ok(p, t, l):
    F = p.facts
    return any(F.entails(eq(fld(e.ret, SN + 'status'), SHU)) or F.entails(lt(t, fld(e.ret, SN + 'term'))) for e in p.calls('~RaftState::getSnapshot$'))


@rule('R15', 'heartbeat', 'a leader is recognised only in the current term, when it is the leader known for it')
def r15_hb(cx):
    H = 'quarkdb::RaftHeartbeatRequest::'
    for f in cx.p.fns(D + 'heartbeat'):
        t, l = Engine.project(P(f, 0), H + 'term'), Engine.project(P(f, 0), H + 'leader')
        yes = 0
        for p in dpaths(cx, f):
            s = 'heartbeat'
            for h in p.calls('~RaftHeartbeatTracker::heartbeat$'):
                cx.ob(hb_table(cx, p, f, t, l, s) is not None, s, 'the election timer is only reset by the leader of the term', h.where(), p)
            if p.outcome != 'return':
                continue
            r = resp(p, 'RaftHeartbeatResponse', 'nodeRecognizedAsLeader')
            sn = hb_table(cx, p, f, t, l, s)
            if r == ZERO or F_false(r):
                cx.ob(reject_ok(p, t, l), s, 'an answer of no has one of the listed reasons', None, p)
            else:
                yes += 1
                cx.ob(sn is not None, s, 'an answer of yes only to the recognised leader', None, p)
                cx.ob(anyof(p.facts, rets(p, 'RaftState::getMyself'), lambda m: ne(l, m)), s, 'a node does not follow itself', None, p)
                cx.ob(bool(p.calls('~RaftHeartbeatTracker::heartbeat$')), s, 'contact with the leader resets the election timer', None, p)
            cx.ob(any(p.facts.eqv(resp(p, 'RaftHeartbeatResponse', 'term'), fld(e.ret, SN + 'term')) for e in p.calls('~RaftState::getSnapshot$')), s, 'the answer carries the current term', None, p)
        cx.ob(yes > 0, 'heartbeat', 'recognises leaders')


def F_false(v):
    return v in (ZERO, False) or (isinstance(v, tuple) and v[0] == 'c' and not v[1])


@rule('R15', 'append', 'entries are taken only from the recognised leader, after the match, replacing only what conflicts')
def r15_append(cx):
    f = cx.fn(D + 'appendEntries')
    req = P(f, 0)
    q = {k: Engine.project(req, A + k) for k in ('term', 'leader', 'prevIndex', 'prevTerm', 'commitIndex', 'entries')}
    nxt = add(q['prevIndex'], C(1))
    n = {True: 0, False: 0}
    for p in dpaths(cx, f):
        s = 'appendEntries'
        F = p.facts
        sn = hb_table(cx, p, f, q['term'], q['leader'], s)
        me = [e for e in p.calls('~RaftJournal::matchEntries$') if e.args[0] == q['prevIndex'] and e.args[1] == q['prevTerm']]
        ce = [e for e in p.calls('~RaftJournal::compareEntries$') if F.eqv(e.args[0], nxt) and e.args[1] == q['entries']]
        rem, app, sci = p.calls('~RaftJournal::removeEntries$'), p.calls('~RaftJournal::append$'), p.calls('~RaftJournal::setCommitIndex$')
        other = [e for e in p.events if e.kind == 'call' and e.name.startswith(J) and e.name.split('::')[-1] not in
                 ('matchEntries', 'compareEntries', 'removeEntries', 'append', 'setCommitIndex', 'getLogSize', 'getCommitIndex', 'getLogStart', 'fetch')]
        cx.ob(not other, s, 'the log is changed by nothing else', other[0].where() if other else None, p)
        for e in rem + app + sci + me + ce:
            cx.ob(held(e, D + 'raftCommand'), s, 'under the command lock', e.where(), p)
            cx.ob(sn is not None, s, 'only for the leader recognised in the current term', e.where(), p)
        for e in rem + app + sci:
            cx.ob(any(m.n < e.n and e.facts.entails(ne(m.ret, ZERO)) for m in me), s, 'only after the preceding entry matched', e.where(), p)
        for e in rem:
            fi = [c for c in ce if c.n < e.n and e.facts.eqv(e.args[0], c.ret)]
            cx.ob(bool(fi), s, 'removes from the first difference on', e.where(), p)
            cx.ob(anyof(e.facts, rets(p, 'RaftJournal::getCommitIndex', e.n), lambda c: gt(e.args[0], c)), s, 'removes nothing committed', e.where(), p)
            cx.ob(anyof(e.facts, rets(p, 'RaftJournal::getLogSize', e.n), lambda z: eq(e.args[0], z)) or anyof(e.facts, rets(p, 'StateMachine::getLastApplied', e.n), lambda a: gt(e.args[0], a)), s,
                  'removes nothing applied', e.where(), p)
            cx.ob(not [a for a in app if a.n < e.n], s, 'removes before it adds', e.where(), p)
        for e in app:
            i = None
            for lid in reversed(e.loops):
                pass
            idx = sub(e.args[0], nxt)
            cx.ob(e.facts.eqv(Engine.index(q['entries'], idx), e.args[1]) or entry_at(e.args[1], q['entries'], idx), s, 'entry i goes to position i after the preceding one', e.where(), p)
            lo = [sub(c.ret, nxt) for c in ce]
            cx.ob(any(covers(p, e, idx, l, size(q['entries'])) for l in lo) or failing(p, e), s, 'all entries from the first difference on are added in order', e.where(), p)
            cx.ob(len(rem) == 1 and rem[0].n < e.n, s, 'the conflicting tail was removed first', e.where(), p)
        for e in sci:
            good = anyof(e.facts, rets(p, 'RaftJournal::getLogSize', e.n), lambda z: le(e.args[0], sub(z, C(1)))) and e.facts.entails(le(e.args[0], q['commitIndex']))
            exact = anyof(e.facts, rets(p, 'RaftJournal::getLogSize', e.n), lambda z: OR(eq(e.args[0], sub(z, C(1))), eq(e.args[0], q['commitIndex']))) or \
                e.facts.entails(eq(e.args[0], q['commitIndex']))
            cx.ob(good and exact, s, 'commits up to what the leader reported, within the log', e.where(), p)
        if p.outcome == 'throw':
            lz, ci, la = rets(p, 'RaftJournal::getLogSize'), rets(p, 'RaftJournal::getCommitIndex'), rets(p, 'StateMachine::getLastApplied')
            cx.ob(any(F.entails(eq(q['leader'], m)) for m in rets(p, 'RaftState::getMyself')) or
                  any(F.entails(ne(q['leader'], fld(e.ret, SN + 'leader'))) or F.entails(ne(q['term'], fld(e.ret, SN + 'term'))) for e in p.calls('~RaftState::getSnapshot$')) or
                  any(F.entails(le(c.ret, x)) for c in ce for x in ci) or
                  any(F.entails(AND(le(c.ret, a), ne(c.ret, z))) for c in ce for a in la for z in lz), s, 'stops the process only over a safety violation', None, p)
        if p.outcome != 'return':
            continue
        r = resp(p, 'RaftAppendEntriesResponse', 'outcome')
        if r in (ZERO, False, ('c', False)):
            n[False] += 1
            fails = [a for a in app if F.entails(eq(a.ret, ZERO))]
            cx.ob(bool(fails) or reject_ok(p, q['term'], q['leader']) or any(F.entails(eq(m.ret, ZERO)) for m in me), s, 'an answer of no has one of the listed reasons', None, p)
            cx.ob(bool(fails) or not (rem or app or sci), s, 'a refused request leaves the log as it was', None, p)
            cx.ob(not sci, s, 'a refused request commits nothing', None, p)
        else:
            n[True] += 1
            cx.ob(sn is not None, s, 'success only for the recognised leader', None, p)
            cx.ob(any(F.entails(ne(m.ret, ZERO)) for m in me), s, 'success only when the preceding entry matches', None, p)
            dup = any(F.entails(ge(sub(c.ret, nxt), size(q['entries']))) for c in ce)
            cx.ob(bool(ce) and (dup or (rem and (app or loop_skipped(p, ce, nxt, q['entries'])) and all(a.loops or F.entails(ne(a.ret, ZERO)) for a in app))), s,
                  'success only when every entry is in the log', None, p)
            cx.ob(len(sci) == 1, s, 'success moves the commit point', None, p)
        cx.ob(any(F.eqv(resp(p, 'RaftAppendEntriesResponse', 'logSize'), z) for z in rets(p, 'RaftJournal::getLogSize')), s, 'the answer carries the log size', None, p)
    cx.ob(n[True] and n[False], 'appendEntries', 'accepts and refuses')


def entry_at(v, entries, idx):
    return is_call(v, '[]', 'at') and v[2] == entries and v[3] == idx


def failing(p, e):
    """the append of this iteration failed and the request is refused"""
    return p.outcome != 'return' or p.facts.entails(eq(e.ret, ZERO))


def loop_skipped(p, ce, nxt, entries):
    return any(p.facts.entails(ge(sub(c.ret, nxt), size(entries))) for c in ce)


@rule('R15', 'match', 'matchEntries says yes exactly when the entry exists with that term; compareEntries finds the first difference')
def r15_match(cx):
    f = cx.fn(J + 'matchEntries')
    n = {True: 0, False: 0}
    for p, b, F in bool_cases(cx.paths(f, opaque=('~RaftJournal::fetch$',))):
        s = 'matchEntries'
        fe = [e for e in p.calls('~RaftJournal::fetch$') if e.args[0] == P(f, 0)]
        n[b] += 1
        for e in fe:
            cx.ob(held(e, J + 'contentMutex'), s, 'compared under the content lock', e.where(), p)
        if b:
            good = any(F.entails(ok(e.ret)) and F.entails(eq(outarg(e, 1), P(f, 1))) for e in fe)
            cx.ob(good, s, 'a match needs the entry to be readable and its term to be equal', None, p)
        else:
            cx.ob(F.entails(le(this(J + 'logSize'), P(f, 0))) or any(F.entails(tneg(ok(e.ret))) or F.entails(ne(outarg(e, 1), P(f, 1))) for e in fe), s,
                  'a mismatch means missing or different', None, p)
    cx.ob(n[True] and n[False], 'matchEntries', 'can say both')


@rule('R15', 'compare', 'compareEntries returns the first position whose stored entry differs, or the end of the overlap')
def r15_compare(cx):
    f = cx.fn(J + 'compareEntries')
    st, en = P(f, 0), P(f, 1)
    s = 'compareEntries'
    lz, ls = this(J + 'logSize'), this(J + 'logStart')
    n = set()
    for p in cx.paths(f, opaque=('~RaftJournal::fetch_or_die$', '~RaftJournal::fetch$')):
        fe = [e for e in p.calls('~RaftJournal::fetch_or_die$', '~RaftJournal::fetch$')]
        for e in fe:
            cx.ob(held(e, J + 'contentMutex'), s, 'compared under the content lock', e.where(), p)
            r = loop_range(p, e, e.args[0])
            cx.ob(r is not None and e.loops and (e.facts.entails(eq(r[0], st)) or e.facts.entails(eq(r[0], ls))) and e.facts.entails(AND(ge(r[0], st), ge(r[0], ls))), s,
                  'the comparison starts at the first offered entry still stored', e.where(), p)
            cx.ob(e.facts.entails(AND(ge(e.args[0], st), lt(e.args[0], add(st, size(en))), lt(e.args[0], lz))), s, 'only positions both logs have are compared', e.where(), p)
            cx.ob(r is not None and r[1] in (None, 1), s, 'every position is compared', e.where(), p)
        if p.outcome != 'return':
            continue
        F = p.facts
        hit = None
        for e in fe:
            o = outarg(e, 1)
            off = sub(e.args[0], st)
            if F.eqv(p.val, e.args[0]) and differ(p, en, off, o):
                hit = e
        n.add('diff' if hit else 'end')
        if hit is None:
            up = add(st, size(en))
            cx.ob(F.entails(OR(eq(p.val, lz), eq(p.val, up))) and F.entails(AND(le(p.val, lz), le(p.val, up))), s, 'without a difference the end of the overlap is returned', None, p)
            for lid in {l for e in fe for l in e.loops}:
                ex = [x for x in loop_events(p, lid) if x.info == 'exit']
                cx.ob(bool(ex) and any(ex[-1].facts.entails(ge(b, p.val)) for v, a, b in ex[-1].args if is_idx(p, lid, v, fe)), s, 'without a difference the whole overlap was compared', None, p)
    cx.ob(n == {'diff', 'end'}, s, 'finds differences and agreement')


def is_idx(p, lid, v, fe):
    for e in loop_events(p, lid):
        if e.info == 'begin':
            for v2, a, cur in e.args:
                if v2 == v:
                    return any(is_num(sub(x.args[0], cur)) for x in fe)
    return False


def differ(p, en, off, got):
    """the offered entry at off is known to differ from the stored one"""
    return p.facts.entails(ne(Engine.index(en, off), got))


# ---------------------------------------------------------------- R17
SUB = '~RaftDispatcher::(info|dispatchInfo|heartbeat|appendEntries|requestVote|service|fetch|dispatchPubsub|checkIfNodeRemovalAcceptable)$'
CMD = 'quarkdb::RedisCommand::'
RR = 'quarkdb::RedisRequest::'
CONN = 'quarkdb::Connection::'


def req_dispatch(cx):
    f = cx.fn(D + 'dispatch', pred=lambda f: 'RedisRequest' in f['key'])
    return f, cx.paths(f, opaque=OPQ + (SUB,), pure=PURE)


def cmd_is(facts, req, *names):
    c = Engine.project(req, RR + 'command')
    return any(facts.entails(eq(c, ('e', CMD + n))) for n in names)


def arg(req, i):
    return Engine.index(Engine.project(req, RR + 'contents'), C(i))


def nargs(req):
    return size(Engine.project(req, RR + 'contents'))


def authorised(conn):
    return ne(fld(conn, CONN + 'raftAuthorization'), ZERO)


INTERNAL = {'heartbeat': ('RAFT_HEARTBEAT',), 'appendEntries': ('RAFT_APPEND_ENTRIES',), 'requestVote': ('RAFT_REQUEST_VOTE', 'RAFT_REQUEST_PRE_VOTE')}


@rule('R17', 'gate', 'replication, election and resilvering commands run only on an authorised connection, after a successful parse')
def r17_gate(cx):
    f, ps = req_dispatch(cx)
    n = {}
    for p in ps:
        for e in p.calls('~RaftDispatcher::(heartbeat|appendEntries|requestVote)$'):
            m = e.name.split('::')[-1]
            n[m] = n.get(m, 0) + 1
            cx.ob(e.facts.entails(authorised(P(f, 0))), 'dispatch', m + ' only on an authorised connection', e.where(), p)
            cx.ob(cmd_is(e.facts, P(f, 1), *INTERNAL[m]), 'dispatch', m + ' only for its own command', e.where(), p)
            if m == 'requestVote' and len(e.args) > 1:
                pre = cmd_is(e.facts, P(f, 1), 'RAFT_REQUEST_PRE_VOTE')
                cx.ob(e.facts.entails(ne(e.args[1], ZERO) if pre else eq(e.args[1], ZERO)), 'dispatch', 'a pre-vote is handled as a pre-vote and a vote as a vote', e.where(), p)
            ok_ = [x for x in p.calls('~RaftParser::') if x.n < e.n and e.facts.entails(ne(result(x), ZERO))]
            cx.ob(any(e.args[0] == outv(x, 1) for x in ok_), 'dispatch', m + ' gets the request that was parsed', e.where(), p)
            rp = [x for x in p.calls('~Connection::vector$') if x.n > e.n]
            cx.ob(len(rp) == 1 and repr(e.ret) in repr(rp[0].args), 'dispatch', 'the answer of %s is what the sender gets' % m, e.where(), p)
    cx.ob(len(n) == 3, 'dispatch', 'serves all three')
    for fn_, node in callers(cx, D + 'appendEntries', D + 'requestVote'):
        cx.ob(fn_['name'] == D + 'dispatch', short(fn_['name']), 'requests of other nodes enter through the dispatcher', fn_['file'])
    g = cx.fn('quarkdb::Shard::dispatch', pred=lambda f: 'RedisRequest' in f['key'])
    k = 0
    for p in cx.paths(g, opaque=('~quarkdb::Connection::', '~ShardDirectory::', '~Shard::(start|detach|attach|getHealth|stopAcceptingRequests)$', '~StateMachine::', '~CommandMonitor', '~Formatter', '~InFlight', '~RequestCounter')):
        for e in p.calls('~ShardDirectory::resilvering'):
            k += 1
            m = e.name.split('::')[-1]
            cx.ob(e.facts.entails(authorised(P(g, 0))), 'Shard::dispatch', m + ' only on an authorised connection', e.where(), p)
        for e in p.calls('~Shard::(start|detach)$'):
            cx.ob(e.facts.entails(authorised(P(g, 0))), 'Shard::dispatch', 'detaching only on an authorised connection', e.where(), p)
    cx.ob(k >= 3, 'Shard::dispatch', 'serves resilvering')


@rule('R17', 'handshake', 'a connection is authorised only by a handshake with the right cluster id and timeouts, and every handshake starts from refused')
def r17_handshake(cx):
    f, ps = req_dispatch(cx)
    conn, req = P(f, 0), P(f, 1)
    loc = ('f', ('d', conn), CONN + 'raftAuthorization')
    yes = 0
    for p in ps:
        for e in [x for x in p.events if x.kind == 'write' and x.loc == loc]:
            cx.ob(cmd_is(e.facts, req, 'RAFT_HANDSHAKE'), 'dispatch', 'authorisation changes only in a handshake', e.where(), p)
            if e.facts.entails(eq(e.val, ZERO)):
                continue
            yes += 1
            cx.ob(e.facts.entails(eq(nargs(req), C(4))), 'handshake', 'the handshake is complete', e.where(), p)
            ids = rets(p, 'RaftJournal::getClusterID') + [('call', J + 'getClusterID', this(D + 'journal'))]
            cx.ob(anyof(e.facts, ids, lambda v: eq(arg(req, 2), v)), 'handshake', 'the cluster id is the own one', e.where(), p)
            ts = [l for l in e.facts.all() if l[0] == 'eq' and 'RaftTimeouts::toString' in repr(l) and 'getTimeouts' in repr(l) and repr(arg(req, 3)) in repr(l)]
            cx.ob(bool(ts), 'handshake', 'the timeouts are the own ones', e.where(), p)
        if p.outcome == 'return' and cmd_is(p.facts, req, 'RAFT_HANDSHAKE'):
            oks = p.calls('~Connection::ok$')
            v = p.final(loc)
            cx.ob(bool(oks) or p.facts.entails(eq(v, ZERO)), 'handshake', 'a refused handshake leaves the connection without authorisation', None, p)
            cx.ob(not oks or p.facts.entails(ne(v, ZERO)), 'handshake', 'a handshake answered ok authorises', None, p)
    cx.ob(yes > 0, 'handshake', 'connections can be authorised')
    for g in writers(cx, CONN + 'raftAuthorization'):
        ok_ = g['name'] == D + 'dispatch' or short(g['name']).startswith('Connection::Connection')
        cx.ob(ok_, short(g['name']), 'authorisation is set in the dispatcher only', g['file'])
    fld_ = [x for c in [cx.p.cls.get('quarkdb::Connection')] if c for x in c.get('fields', ()) if x['n'].endswith('raftAuthorization')] if hasattr(cx.p, 'cls') else []
    for x in fld_:
        i = x.get('i')
        cx.ob(isinstance(i, dict) and i.get('v') in (0, False), 'Connection', 'a new connection is not authorised')


SV = 'service'


@rule('R17', 'service', 'client commands are served by a caught-up leader, by stale reads on request, or refused with a redirection')
def r17_service(cx):
    f = cx.fn(D + 'service')
    conn, tx = P(f, 0), P(f, 1)
    hw = lambda v: ne(Engine.project(v, 'quarkdb::Transaction::hasWrites'), ZERO)
    seen = set()
    for p in dpaths(cx, f, extra_inline=()):
        F = p.facts
        sn = [e.ret for e in p.calls('~RaftState::getSnapshot$')]
        cx.need(sn, 'state snapshot')
        g = lambda x: fld(sn[-1], SN + x)
        lead = eq(g('status'), LEA)
        la = rets(p, 'StateMachine::getLastApplied')

        def caught(e):
            w = [x for x in p.calls('~StateMachine::waitUntilTargetLastApplied$') if x.n < e.n]
            return anyof(e.facts, [v for v in la], lambda v: ge(v, g('leadershipMarker'))) or any(e.facts.entails(ne(x.ret, ZERO)) and x.args[0] == g('leadershipMarker') for x in w)
        serve = p.calls('~WriteTracker::append$', '~Connection::addPendingTransaction$')
        for e in serve:
            cx.ob(e.facts.entails(lead), SV, 'only a leader takes client commands', e.where(), p)
            cx.ob(caught(e), SV, 'a leader serves only after its leadership marker was applied', e.where(), p)
        for e in p.calls('~WriteTracker::append$'):
            seen.add('write')
            ft = [x for x in p.calls('~LeaseFilter::transform$') if e.args[2] == outv(x, 0)]
            cx.ob(len(ft) == 1 and e.facts.entails(hw(ft[0].args[0])), SV, 'only writes are put in the log', e.where(), p)
        for e in p.calls('~Connection::addPendingTransaction$'):
            seen.add('read')
            cx.ob(e.facts.entails(tneg(hw(e.args[1]))), SV, 'a write is not run outside the log', e.where(), p)
        for e in p.calls('~RedisDispatcher::dispatch'):
            seen.add('stale')
            cx.ob(e.facts.entails(tneg(hw(e.args[1]))), SV, 'a write is not run outside the log', e.where(), p)
            cx.ob(e.facts.entails(ne(fld(conn, CONN + 'raftStaleReads'), ZERO)), SV, 'reads on a follower need the consent of the client', e.where(), p)
            cx.ob(e.facts.entails(tneg(emp(g('leader')))), SV, 'reads on a follower need a known leader', e.where(), p)
        rep = p.calls('~Connection::raw$')
        if p.outcome == 'return':
            served = serve or p.calls('~RedisDispatcher::dispatch') or p.calls('~RaftDispatcher::service$')
            cx.ob(bool(served) or len(rep) == 1, SV, 'every command is answered', None, p)
            if rep:
                seen.add('refuse')
                cx.ob(not serve and F.entails(tneg(lead)), SV, 'refused only when not leading', None, p)
                mv = p.calls('~Formatter::moved$')
                er = p.calls('~Formatter::err$')
                cx.ob(any(m.args[1] == g('leader') and F.entails(tneg(emp(g('leader')))) for m in mv) or (bool(er) and not mv and F.entails(emp(g('leader')))), SV,
                      'redirected to the known leader, or unavailable without one', None, p)
                mu = p.calls('~Formatter::multiply$')
                cx.ob(len(mu) == 1 and any(repr(result(x)) in repr(mu[0].args[0]) or mu[0].args[0] == result(x) for x in mv + er), SV, 'one refusal for every expected reply', None, p)
    cx.ob(seen >= {'write', 'read', 'stale', 'refuse'}, SV, 'serves writes, reads and stale reads, and refuses')
    h = cx.fn(D + 'dispatchPubsub')
    for p in dpaths(cx, h):
        for e in p.calls('~Publisher::dispatch$'):
            sn = [x.ret for x in p.calls('~RaftState::getSnapshot$')]
            cx.ob(any(e.facts.entails(eq(fld(x, SN + 'status'), LEA)) for x in sn), 'dispatchPubsub', 'only a leader serves subscriptions', e.where(), p)


@rule('R17', 'entry', 'client commands reach the state machine only through the leader check')
def r17_entry(cx):
    f, ps = req_dispatch(cx)
    for p in ps:
        bad = [e for e in p.calls('~WriteTracker::append$', '~Connection::addPendingTransaction$', '~RedisDispatcher::dispatch')]
        for e in bad:
            cx.ob(False, 'dispatch', 'client commands go through the leader check', e.where(), p)
        for e in p.calls('~RaftDispatcher::service$'):
            ct = Engine.project(P(f, 1), RR + 'commandType')
            w, r = ('e', 'quarkdb::CommandType::WRITE'), ('e', 'quarkdb::CommandType::READ')
            cx.ob(e.facts.entails(eq(ct, w)) or e.facts.entails(eq(ct, r)), 'dispatch', 'only reads and writes are served as client commands', e.where(), p)
    for name in ('addObserver', 'removeMember', 'promoteObserver', 'demoteToObserver'):
        for fn_, node in callers(cx, J + name):
            cx.ob(fn_['name'] == D + 'dispatch', short(fn_['name']), 'membership changes enter through the dispatcher', fn_['file'])


# ---------------------------------------------------------------- R18
MEMB = {'addObserver': 'RAFT_ADD_OBSERVER', 'removeMember': 'RAFT_REMOVE_MEMBER', 'promoteObserver': 'RAFT_PROMOTE_OBSERVER', 'demoteToObserver': 'RAFT_DEMOTE_TO_OBSERVER'}


@rule('R18', 'proposal', 'membership changes are proposed by a leader, about another node, with the quorum kept up to date')
def r18(cx):
    f, ps = req_dispatch(cx)
    req = P(f, 1)
    seen = set()
    for p in ps:
        for e in p.calls('~RaftJournal::(addObserver|removeMember|promoteObserver|demoteToObserver)$'):
            m = e.name.split('::')[-1]
            seen.add(m)
            s = m
            cx.ob(cmd_is(e.facts, req, MEMB[m]), s, 'only for its own command', e.where(), p)
            cx.ob(held(e, D + 'raftCommand'), s, 'under the command lock', e.where(), p)
            sn = [x for x in p.calls('~RaftState::getSnapshot$') if e.facts.eqv(e.args[0], fld(x.ret, SN + 'term'))]
            cx.ob(any(e.facts.entails(eq(fld(x.ret, SN + 'status'), LEA)) for x in sn), s, 'only by the leader, in its term', e.where(), p)
            cx.ob(all(held(x, D + 'raftCommand') for x in sn), s, 'leadership is checked under the command lock', e.where(), p)
            ps_ = [x for x in p.calls('~parseServer$') if x.args[0] == arg(req, 1) and e.facts.entails(ne(result(x), ZERO))]
            cx.ob(bool(ps_) and e.facts.entails(eq(nargs(req), C(2))), s, 'the node is the one named', e.where(), p)
            srv = e.args[1]
            cx.ob(any(srv == outv(x, 1) for x in ps_), s, 'the node changed is the one named', e.where(), p)
            cx.ob(anyof(e.facts, rets(p, 'RaftState::getMyself'), lambda v: ne(srv, v)), s, 'a leader does not change its own membership', e.where(), p)
            if m in ('removeMember', 'demoteToObserver'):
                ck = [x for x in p.calls('~checkIfNodeRemovalAcceptable$') if x.n < e.n and x.args[0] == srv and e.facts.entails(ne(x.ret, ZERO))]
                cx.ob(bool(ck), s, 'the remaining members have an up-to-date quorum', e.where(), p)
            if m == 'promoteObserver':
                good = False
                for x in p.calls('~RaftJournal::getLogSize$'):
                    for r in p.calls('~ReplicationStatus::getReplicaStatus$'):
                        if r.args[0] == srv and promote_ok(p, e.facts, result(r), result(x)):
                            good = True
                cx.ob(good, s, 'only an observer that is up to date', e.where(), p)
            if p.outcome == 'return':
                okr = p.calls('~Connection::ok$')
                acc = p.facts.entails(ne(e.ret, ZERO))
                cx.ob(acc == bool(okr), s, 'ok is answered exactly when the change is in the log', e.where(), p)
                if acc:
                    cx.ob(bool(p.calls('~RaftReplicator::reconfigure$')), s, 'an accepted change reaches the replicas', e.where(), p)
    cx.ob(seen == set(MEMB), 'dispatch', 'all four changes are served')


def promote_ok(p, facts, st, lz):
    """facts say the replica status is online and its log is within the accepted distance"""
    on = Engine.project(st, 'quarkdb::ReplicaStatus::online')
    ls = Engine.project(st, 'quarkdb::ReplicaStatus::logSize')
    u = [x for x in p.calls('~ReplicaStatus::upToDate$')]
    if any(facts.entails(ne(result(x), ZERO)) and x.args and x.args[0] == lz for x in u):
        return True
    return facts.entails(ne(on, ZERO)) and facts.entails(le(sub(lz, C(30000)), ls))


def find_sizes(cx):
    return None


@rule('R18', 'members', 'each change moves exactly one node, and refuses what does not apply')
def r18_members(cx):
    M = 'quarkdb::RaftMembers::'
    ERASE = ('erase_element', 'quarkdb::erase_element')
    no, ob_ = thisloc(M + 'nodes'), thisloc(M + 'observers')
    N0, O0 = this(M + 'nodes'), this(M + 'observers')
    has = lambda p, v, x: any(l for l in [1] if p.facts.entails(ne(('call', 'quarkdb::contains', v, x), ZERO)) or p.facts.entails(ne(('call', 'contains', v, x), ZERO)))
    hasnt = lambda p, v, x: p.facts.entails(eq(('call', 'quarkdb::contains', v, x), ZERO)) or p.facts.entails(eq(('call', 'contains', v, x), ZERO))
    for m in ('addObserver', 'removeMember', 'promoteObserver', 'demoteToObserver'):
        f = cx.fn(M + m)
        x = P(f, 0)
        yes = no_ = 0
        for p, b, F in bool_cases(cx.paths(f, opaque=('~erase_element$',), pure=PURE)):
            er = p.calls('~erase_element$')
            took = lambda loc: [e for e in er if loc in e.arglocs and e.args[1] == x and F.entails(ne(e.ret, ZERO))]
            missed = lambda loc: [e for e in er if loc in e.arglocs and e.args[1] == x and F.entails(eq(e.ret, ZERO))]
            addn, addo = added(p, no), added(p, ob_)
            if not b:
                no_ += 1
                cx.ob(not addn and not addo and not took(no) and not took(ob_), m, 'a refused change changes nothing', None, p)
                if m == 'addObserver':
                    cx.ob(has(p, O0, x) or has(p, N0, x), m, 'refused only for a node that is already there', None, p)
                else:
                    cx.ob((m == 'promoteObserver' or missed(no)) and (m == 'demoteToObserver' or missed(ob_)), m, 'refused only for a node that is not there', None, p)
                continue
            yes += 1
            if m == 'addObserver':
                cx.ob(addo == [x] and not addn and not er, m, 'adds the one observer', None, p)
                cx.ob(hasnt(p, O0, x) and hasnt(p, N0, x), m, 'only a node that is not there yet', None, p)
            elif m == 'removeMember':
                cx.ob(not addn and not addo and len(took(no)) + len(took(ob_)) == 1, m, 'removes the one node', None, p)
            elif m == 'promoteObserver':
                cx.ob(addn == [x] and not addo and len(took(ob_)) == 1 and not took(no), m, 'moves the one observer to the full members', None, p)
            else:
                cx.ob(addo == [x] and not addn and len(took(no)) == 1 and not took(ob_), m, 'moves the one member to the observers', None, p)
        cx.ob(yes and no_, m, 'accepts and refuses')


def added(p, loc):
    out = []
    for e in p.events:
        if e.kind == 'app' and e.loc == loc:
            out.append(e.val)
        elif e.kind == 'call' and e.objloc == loc and e.name.split('::')[-1] in ('push_back', 'emplace_back', 'insert'):
            out.append(e.args[-1])
        elif e.kind == 'write' and e.loc == loc:
            ms, base = muts(e.val)
            if ms and ms[-1][0].split('::')[-1] in ('push_back', 'emplace_back') and ms[-1][1][-1] not in out:
                out.append(ms[-1][1][-1])
    return out


@rule('R18', 'journal', 'the log gets a change only when the membership operation applied, on the current members, and the last change is committed')
def r18_journal(cx):
    for m in MEMB:
        f = cx.fn(J + m)
        n = 0
        for p in cx.paths(f, opaque=('~RaftJournal::(membershipUpdate|getMembers)$', '~RaftMembers::')):
            up = p.calls('~RaftJournal::membershipUpdate$')
            op = p.calls('~RaftMembers::' + m + '$')
            for e in p.calls('~RaftMembers::(addObserver|removeMember|promoteObserver|demoteToObserver)$'):
                cx.ob(e in op, m, 'the operation is the requested one', e.where(), p)
            for e in up:
                n += 1
                cx.ob(len(op) == 1 and op[0].n < e.n and e.facts.entails(ne(op[0].ret, ZERO)) and op[0].args[0] == P(f, 1), m, 'only after the operation on the members applied', e.where(), p)
                cx.ob(e.args[0] == P(f, 0), m, 'in the term of the proposer', e.where(), p)
            if p.outcome == 'return':
                cx.ob(bool(up) or p.facts.entails(eq(p.val, ZERO)), m, 'an operation that does not apply is refused', None, p)
                if up:
                    cx.ob(p.facts.eqv(p.val, up[-1].ret), m, 'the answer is that of the log', None, p)
        cx.ob(n > 0, m, 'proposes')
