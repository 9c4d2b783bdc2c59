"""Elections: R12."""
from qdb.common import *
from rules.r_dispatch import fld, emp, rets, anyof, SN, ST, LEA

G = 'quarkdb::RaftVoteRegistry::'
SV = G + 'SingleVote::'
E = 'quarkdb::RaftElection::'
DI = 'quarkdb::RaftDirector::'
VQ = 'quarkdb::RaftVoteRequest::'
OUT = 'quarkdb::ElectionOutcome::'
ELECTED, VETOED, NOT = ('e', OUT + 'kElected'), ('e', OUT + 'kVetoed'), ('e', OUT + 'kNotElected')
CAND = ('e', 'quarkdb::RaftStatus::CANDIDATE')
OPQ = ('~RaftState::', '~RaftTalker', '~RaftParser', '~RaftVoteRegistry::', '~RaftLease', '~RaftLastContact', '~RaftServer::toString', '~RaftServer::empty$')
Q = 'quarkdb::calculateQuorumSize'


def majority(n):
    return add(('op', '/', n, C(2)), C(1))


@rule('R12', 'quorum', 'a quorum is strictly more than half of the full members')
def r12_quorum(cx):
    f = cx.fn(Q)
    n = P(f, 0)
    for p in cx.paths(f):
        v = p.val
        good = v is not None and sub(v, C(1)) in (('op', '/', n, C(2)), ('op', '>>', n, C(1))) or v == ('op', '/', add(n, C(2)), C(2))
        cx.ob(good, 'calculateQuorumSize', 'half of the members, rounded down, and one more', f['file'], p)


def vote_kind(facts, el):
    """what the facts say about the answer el: (network error, parse error, vote) with None for undecided"""
    def t(v):
        return True if facts.entails(ne(v, ZERO)) else False if facts.entails(eq(v, ZERO)) else None
    ne_, pe = t(fldv(el, 'second', SV + 'netError')), t(fldv(el, 'second', SV + 'parseError'))
    vote = fldv(el, 'second', SV + 'resp', 'quarkdb::RaftVoteResponse::vote')
    return ne_, pe, vote


def fldv(el, *fs):
    loc = el[1]
    for x in fs:
        loc = ('f', loc, 'std::pair::second' if x == 'second' else x)
    return ('init', loc)


@rule('R12', 'outcome', 'the outcome of a round is decided by the granted votes and vetoes alone')
def r12_outcome(cx):
    f = cx.fn(G + 'determineOutcome')
    s = 'determineOutcome'
    cont = this(G + 'mContents')
    pre = this(G + 'mPreVote')
    g = lambda v: ('e', 'quarkdb::RaftVote::' + v)
    seen = set()
    for p in cx.paths(f, pure=(Q,)):
        if p.outcome != 'return':
            cx.ob(False, s, 'always decides', None, p)
            continue
        F = p.facts
        seen.add(p.val[1].split('::')[-1] if p.val and p.val[0] == 'e' else '?')
        begs = [e for e in p.events if e.kind == 'loop' and e.info == 'begin']
        el = None
        if begs:
            el = votes_el(p, cont)
            cx.ob(el is not None, s, 'every answer of the round is looked at', None, p)
            if el is None:
                continue
            vote = lambda v: eq(votefld(el, 'resp', 'quarkdb::RaftVoteResponse::vote'), g(v))
            net, par = ne(votefld(el, 'netError'), ZERO), ne(votefld(el, 'parseError'), ZERO)
            vetoed = AND(tneg(net), tneg(par), vote('VETO'))
        if p.val == VETOED:
            cx.ob(el is not None and F.entails(vetoed), s, 'vetoed only when a member answered with a veto', None, p)
            continue
        q = ('call', Q, add(size(cont), C(1)))
        tally = C(0)
        if el is not None:
            cx.ob(F.entails(net) or F.entails(par) or F.refutes(vote('VETO')), s, 'a veto ends the round', None, p)
            t = None
            for e in p.events:
                if e.kind == 'loop' and e.info == 'exit':
                    for v, _, b in e.args or ():
                        if F.entails(ge(add(b, C(1)), q)) or F.entails(lt(add(b, C(1)), q)):
                            t = b
            cx.ob(t is not None, s, 'the votes counted, with the one of the candidate, are compared to the quorum of all full members', None, p)
            if t is None:
                continue
            ent, cur, end, lid, ef = folds(p, t)
            cx.ob(is_zero(ent), s, 'the count starts at zero', None, p)
            d = sub(end, cur)
            counted = ef.entails(AND(tneg(net), tneg(par), vote('GRANTED'))) or ef.entails(AND(tneg(net), par, ne(pre, ZERO)))
            cx.ob(d in (C(0), C(1)) and (d == C(1)) == counted, s, 'counts exactly the members that granted their vote (or, in a pre-vote, do not know pre-votes)', None, p)
            seen.add('counted' if counted else 'not counted')
            tally = t
        if p.val == ELECTED:
            cx.ob(F.entails(ge(add(tally, C(1)), q)), s, 'elected only with a quorum', None, p)
        else:
            cx.ob(p.val == NOT and F.entails(lt(add(tally, C(1)), q)), s, 'not elected only without a quorum', None, p)
    cx.ob(seen == {'kElected', 'kVetoed', 'kNotElected', 'counted', 'not counted'}, s, 'reaches every outcome: ' + ' '.join(sorted(seen)))


def votes_el(p, cont):
    """location of the element the scan over the answers looks at"""
    for e in p.events:
        if e.kind == 'loop' and e.info == 'begin':
            if e.obj == cont:
                return ('elem', cont, e.val[1])
            for v, entry, cur in e.args or ():
                if entry == ('call', 'begin', cont):
                    el = ('init', ('d', cur))
                    if visits(p, [e.val[1]], el, lambda c: c == cont, whole=p.val != VETOED):
                        return el
    return None


def votefld(el, *fs):
    fs = tuple(x if '::' in x else SV + x for x in fs)
    if el[0] == 'init':
        loc = ('f', el[1], SECOND)
        for x in fs:
            loc = ('f', loc, x)
        return ('init', loc)
    v = ('.', el, SECOND)
    for x in fs:
        v = ('.', v, x)
    return v


SECOND = 'std::pair::second'


@rule('R12', 'registry', 'one answer per member is recorded, as what it was')
def r12_registry(cx):
    want = {'registerVote': (False, False), 'registerParseError': (False, True), 'registerNetworkError': (True, False)}
    cont = this(G + 'mContents')
    for name, (net, par) in want.items():
        for f in cx.p.fns(G + name):
            if len(f['params']) == 3:
                continue
            srv = P(f, 0)
            done = 0
            for p in cx.paths(f):
                w = [e for e in p.events if e.kind == 'write' and G + 'mContents' in loc_fields(e.loc) and e.loc[0] == 'ix']
                for e in w:
                    cx.ob(e.facts.entails(eq(('call', 'find', cont, srv), ('call', 'end', cont))) or e.facts.entails(eq(('call', 'count', cont, srv), ZERO)), name, 'a member answers at most once', e.where(), p)
                    got = [Engine.project(e.val, SV + x) for x in ('netError', 'parseError')]
                    cx.ob(e.loc[2] == srv and [tv(x) for x in got] == [net, par], name, 'recorded under the member that answered, as what it was', e.where(), p)
                    if not net and not par:
                        cx.ob(Engine.project(e.val, SV + 'resp') == P(f, 1), name, 'with its answer', e.where(), p)
                if p.outcome == 'return':
                    done += 1
                    cx.ob(len(w) == 1, name, 'recorded once', None, p)
            cx.ob(done, name, 'records')
    f = cx.fn(G + 'registerVote', 3)
    n = {}
    for p in cx.paths(f, opaque=OPQ):
        r = p.calls('~RaftVoteRegistry::register')
        cx.ob(len(r) == 1 and r[0].args[0] == P(f, 0), 'registerVote/3', 'exactly one answer of the member is recorded', None, p)
        if len(r) != 1:
            continue
        k = r[0].name.split('::')[-1]
        n[k] = n.get(k, 0) + 1
        ps = p.calls('~RaftParser::voteResponse$')
        got = p.calls('~future::get$')
        w = [l for l in r[0].facts.all() if 'wait_until' in repr(l) or 'wait_for' in repr(l)]
        if k == 'registerVote':
            cx.ob(len(ps) == 1 and r[0].facts.entails(ne(ps[0].ret, ZERO)) and r[0].args[1] == outv(ps[0], 1) and len(got) == 1 and ps[0].args[0] == got[0].ret, 'registerVote/3', 'a vote is recorded only from an answer that parses', r[0].where(), p)
        elif k == 'registerParseError':
            cx.ob(len(ps) == 1 and r[0].facts.entails(eq(ps[0].ret, ZERO)), 'registerVote/3', 'an answer that does not parse', r[0].where(), p)
        else:
            cx.ob(not ps, 'registerVote/3', 'no answer', r[0].where(), p)
        for e in got:
            ready = ('e', 'std::future_status::ready')
            cx.ob(any(e.facts.entails(eq(t, ready)) for l in w for t in subterms(l) if is_call(t, '~wait_until$', '~wait_for$')), 'registerVote/3', 'the answer is fetched only when it is there', e.where(), p)
        for t in {t for l in w for t in subterms(l) if is_call(t, '~wait_until$')}:
            cx.ob(t[-1] == P(f, 2), 'registerVote/3', 'waits until the end of the round', None, p)
    cx.ob(set(n) == set(want), 'registerVote/3', 'handles votes, unparsable answers and silence')


def tv(v):
    if v in (('c', True), ('c', 1)):
        return True
    if v in (('c', False), ('c', 0)):
        return False
    return None


@rule('R12', 'observe', 'terms of all answers are observed, and only granted votes renew the lease, as of the start of the round')
def r12_observe(cx):
    f = cx.fn(G + 'observeTermsAndLeases')
    s = 'observeTermsAndLeases'
    cont = this(G + 'mContents')
    n = 0
    for p in cx.paths(f, opaque=tuple(o for o in OPQ if 'Registry' not in o)):
        for e in p.calls('~RaftLastContact::heartbeat$'):
            n += 1
            h = [x for x in p.calls('~RaftLease::getHandler$') if x.n < e.n]
            el, fs = peel(h[-1].args[0]) if h else (NOTHING, [])
            cx.ob(bool(h) and visits(p, e.loops, el, lambda c: c == cont) and fs == ['std::pair::first'], s, 'for the member that answered', e.where(), p)
            F = e.facts
            cx.ob(F.entails(AND(eq(votefld(el, 'netError'), ZERO), eq(votefld(el, 'parseError'), ZERO), eq(votefld(el, 'resp', 'quarkdb::RaftVoteResponse::vote'), ('e', 'quarkdb::RaftVote::GRANTED')))), s,
                  'only a granted vote counts as contact', e.where(), p)
            cx.ob(e.args[0] == P(f, 2), s, 'contact as of the time the requests were sent', e.where(), p)
        begs = [e for e in p.events if e.kind == 'loop' and e.info == 'begin']
        if begs and p.outcome == 'return':
            el = votes_el(p, cont)
            cx.ob(el is not None, s, 'every answer is looked at', None, p)
            if el is None:
                continue
            ob = p.calls('~RaftState::observed$')
            silent = p.facts.entails(ne(votefld(el, 'netError'), ZERO)) or p.facts.entails(ne(votefld(el, 'parseError'), ZERO))
            cx.ob(silent or len(ob) == 1 and ob[0].args[0] == votefld(el, 'resp', 'quarkdb::RaftVoteResponse::term'), s, 'the term of every answer is observed', None, p)
            for o in ob:
                cx.ob(Engine.project(o.args[1], 'quarkdb::RaftServer::hostname') == ('s', ''), s, 'no leader is recognised from a vote', o.where(), p)
    cx.ob(n > 0, s, 'renews the lease')


def round_rules(cx, f, pre):
    s = short(f['name']).split('::')[-1]
    req = P(f, 0)
    wins = 0
    for p in cx.paths(f, opaque=OPQ):
        me = rets(p, 'RaftState::getMyself')
        for e in p.calls('~RaftTalker::requestVote$'):
            cx.ob(tv(e.args[1]) is pre, s, 'asks for a %s' % ('pre-vote' if pre else 'vote'), e.where(), p)
            cx.ob(all(e.facts.eqv(Engine.project(e.args[0], VQ + k), Engine.project(req, VQ + k)) for k in ('term', 'lastIndex', 'lastTerm')) and Engine.project(e.args[0], VQ + 'candidate') in me, s, 'with the given position, for itself', e.where(), p)
            tk = [x for x in p.calls('~RaftTalker::RaftTalker$') if x.n < e.n]
            node = tk[-1].args[0] if tk else NOTHING
            nodes = rets(p, 'RaftState::getNodes')
            cx.ob(visits(p, e.loops, node, lambda c: c in nodes), s, 'every full member is asked', e.where(), p)
            cx.ob(any(e.facts.entails(ne(node, m)) for m in me), s, 'except itself', e.where(), p)
            mm = [x for x in p.calls('std::map::operator[]') if x.loops[:1] == e.loops[:1] and x.args[-1] == node]
            cx.ob(bool(mm), s, 'the answer is kept under the member that was asked', e.where(), p)
            if not pre:
                sn = [x for x in p.calls('~RaftState::getSnapshot$') if x.n < e.n]
                cx.ob(any(e.facts.entails(AND(eq(Engine.project(req, VQ + 'term'), fld(x.ret, SN + 'term')), eq(fld(x.ret, SN + 'status'), CAND), emp(fld(x.ret, SN + 'leader')))) for x in sn), s,
                      'votes are asked for only as a candidate of that term, with no known leader', e.where(), p)
        for lid_evs in [[e for e in p.events if e.kind == 'loop' and e.info == 'begin' and e.obj in rets(p, 'RaftState::getNodes')]]:
            for b in lid_evs:
                if p.outcome != 'return':
                    continue
                asked = [e for e in p.calls('~RaftTalker::requestVote$') if b.val[1] in e.loops]
                el = ('elem', b.obj, b.val[1])
                cx.ob(bool(asked) or any(p.facts.entails(eq(el, m)) for m in me), s, 'no other member is left out', None, p)
        for e in p.calls('~RaftVoteRegistry::RaftVoteRegistry$'):
            cx.ob(tv(e.args[1]) is pre and e.args[0] == Engine.project(req, VQ + 'term'), s, 'the round is registered as what it is', e.where(), p)
        for e in p.calls('~RaftVoteRegistry::registerVote$'):
            el, fs = peel(e.args[0])
            el2, fs2 = peel(e.args[1])
            cx.ob(el == el2 and fs == ['std::pair::first'] and visits(p, e.loops, el, lambda c: True), s, 'every answer is registered for its member', e.where(), p)
        det = p.calls('~RaftVoteRegistry::determineOutcome$')
        for d in det:
            asked = p.calls('~RaftTalker::requestVote$')
            regs = p.calls('~RaftVoteRegistry::registerVote$')
            cx.ob(all(x.n < d.n for x in regs), s, 'decided after the answers are in', d.where(), p)
            lp = [e for e in p.events if e.kind == 'loop' and e.n < d.n and e.info in ('begin', 'zero')]
            cx.ob(len(lp) >= 2, s, 'decided after asking and collecting', d.where(), p)
        for e in p.calls('~observeTermsAndLeases$'):
            nw = [x for x in p.events if x.kind == 'call' and x.name.endswith('steady_clock::now') and result(x) == e.args[2]]
            cx.ob(bool(nw) and all(nw[0].n < x.n for x in p.calls('~RaftTalker::requestVote$')), s, 'contact is counted from before the requests were sent', e.where(), p)
        if not pre:
            for e in p.calls('~RaftState::ascend$'):
                wins += 1
                cx.ob(e.args[0] == Engine.project(req, VQ + 'term'), s, 'ascends in the term of the round', e.where(), p)
                cx.ob(any(d.n < e.n and e.facts.entails(eq(d.ret, ELECTED)) for d in det), s, 'ascends only when elected', e.where(), p)
                cx.ob(any(o.n < e.n for o in p.calls('~observeTermsAndLeases$')), s, 'terms of the answers are observed first', e.where(), p)
        if p.outcome != 'return':
            cx.ob(any(p.facts.entails(tneg(emp(Engine.project(req, VQ + 'candidate')))) for _ in (0,)), s, 'refuses only a filled-in candidate', None, p)
            continue
        if pre:
            cx.ob(len(det) == 1 and p.val == det[0].ret, s, 'the outcome is the one of the registry', None, p)
            wins += 1
        else:
            asc = p.calls('~RaftState::ascend$')
            if p.val == NOT:
                cx.ob(not det or bool(asc) and p.facts.entails(eq(asc[0].ret, ZERO)), s, 'an election that was won is reported so', None, p)
            elif p.facts.entails(eq(p.val, ELECTED)):
                cx.ob(bool(asc) and p.facts.entails(ne(asc[0].ret, ZERO)), s, 'won only after ascending', None, p)
            else:
                cx.ob(len(det) == 1 and p.val == det[0].ret and p.facts.entails(ne(det[0].ret, ELECTED)), s, 'lost: the outcome is the one of the registry', None, p)
    cx.ob(wins, s, 'can be won')


@rule('R12', 'rounds', 'a round asks every other full member, collects one answer each, and is won by the outcome of the registry only')
def r12_rounds(cx):
    round_rules(cx, cx.fn(E + 'perform'), False)
    round_rules(cx, cx.fn(E + 'performPreVote'), True)


DOPQ = ('~RaftState::', '~RaftElection::', '~RaftHeartbeatTracker::', '~RaftJournal::', '~checkBasicSanity$', '~StateMachine::', '~RaftReplicator::', '~RaftLease::', '~WriteTracker::', '~Publisher::', '~Formatter::', '~RequestCounter::',
        '~RaftServer::toString', '~RaftMembership::inLimbo$')


@rule('R12', 'campaign', 'a campaign is for the next term, carries the end of the log, and passes the pre-vote first')
def r12_campaign(cx):
    f = cx.fn(DI + 'runForLeader')
    s = 'runForLeader'
    pre = ne(P(f, 0), ZERO)
    n = 0
    for p in cx.paths(f, opaque=DOPQ):
        sane = p.calls('~checkBasicSanity$')
        sn = p.calls('~RaftState::getSnapshot$')
        pv = p.calls('~RaftElection::performPreVote$')
        run = p.calls('~RaftElection::perform$')
        obs, bc, dr = p.calls('~RaftState::observed$'), p.calls('~RaftState::becomeCandidate$'), p.calls('~RaftState::dropOut$')
        for e in pv + run:
            cx.ob(any(e.facts.entails(ne(x.ret, ZERO)) for x in sane), s, 'only when the node passed its sanity check', e.where(), p)
            r = e.args[0]
            term = Engine.project(r, VQ + 'term')
            cx.ob(any(e.facts.eqv(term, add(fld(x.ret, SN + 'term'), C(1))) for x in sn), s, 'for the term after the one observed', e.where(), p)
            fe = [x for x in p.calls('~RaftJournal::fetch$') if e.facts.entails(ok(x.ret))]
            cx.ob(any(any(e.facts.eqv(x.args[0], sub(z, C(1))) for z in rets(p, 'RaftJournal::getLogSize')) and e.facts.eqv(Engine.project(r, VQ + 'lastIndex'), x.args[0]) and Engine.project(r, VQ + 'lastTerm') == outv(x, 1) for x in fe), s,
                  'with the position and term of the last log entry', e.where(), p)
        for e in run:
            n += 1
            t = Engine.project(e.args[0], VQ + 'term')
            cx.ob(e.facts.entails(tneg(pre)) or any(e.facts.entails(eq(x.ret, ELECTED)) for x in pv), s, 'only after the pre-vote was won, unless it is skipped', e.where(), p)
            cx.ob(any(x.n < e.n and e.facts.eqv(x.args[0], t) and e.facts.entails(ne(x.ret, ZERO)) for x in bc), s, 'only as a candidate of that term', e.where(), p)
            if pv:
                ic = [x for x in p.calls('~isSnapshotCurrent$') if x.n > pv[-1].n]
                cx.ob(any(e.facts.entails(ne(x.ret, ZERO)) for x in ic), s, 'only if nothing changed during the pre-vote', e.where(), p)
            if p.outcome == 'return':
                won = p.facts.entails(eq(e.ret, ELECTED))
                cx.ob(won or any(x.n > e.n and p.facts.eqv(x.args[0], t) for x in dr), s, 'a lost election is dropped out of', None, p)
                cx.ob(not won or not dr, s, 'a won election is kept', None, p)
        veto = [e for e in pv + run if p.facts.entails(eq(e.ret, VETOED))]
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == DI + 'lastHeartbeatBeforeVeto']
        hb = [e for e in p.calls('~RaftHeartbeatTracker::getLastHeartbeat$') if all(e.n < x.n for x in pv + run)]
        cx.ob(all(any(p.facts.entails(ne(x.ret, VETOED)) or p.facts.entails(eq(x.ret, ELECTED)) or x in veto for x in (y,)) for y in pv + run), s, 'a veto is told from the other outcomes', None, p)
        for e in veto:
            cx.ob(bool(w) and w[-1].n > e.n and any(w[-1].val == x.ret for x in hb), s, 'a veto keeps the node from campaigning until a heartbeat after the campaign began', None, p)
        cx.ob(bool(veto) or not w, s, 'only a veto keeps the node from campaigning', None, p)
        for e in bc:
            cx.ob(any(x.n < e.n and e.facts.entails(ne(x.ret, ZERO)) and e.facts.eqv(x.args[0], e.args[0]) for x in obs), s, 'candidate only of a term that was entered first', e.where(), p)
        for e in obs:
            cx.ob(not pv or e.facts.entails(eq(pv[-1].ret, ELECTED)), s, 'a failed pre-vote does not advance the term', e.where(), p)
    cx.ob(n > 0, s, 'campaigns')
    for g, node in callers(cx, E + 'perform', E + 'performPreVote'):
        cx.ob(g['name'] == DI + 'runForLeader', short(g['name']), 'elections are run by the director', g['file'])
    f = cx.fn(DI + 'followerLoop')
    s = 'followerLoop'
    n = 0
    for p in cx.paths(f, opaque=DOPQ + ('~runForLeader$',), pure=('quarkdb::contains',)):
        for e in p.calls('~runForLeader$'):
            n += 1
            F = e.facts
            to = p.calls('~RaftHeartbeatTracker::timeout$')
            yes, art = ('e', 'quarkdb::TimeoutStatus::kYes'), ('e', 'quarkdb::TimeoutStatus::kArtificial')
            cx.ob(bool(to) and (F.entails(eq(to[-1].ret, yes)) or F.entails(eq(to[-1].ret, art))), s, 'campaigns only after a timeout', e.where(), p)
            cx.ob(bool(to) and (F.entails(eq(to[-1].ret, art)) or F.entails(truth(e.args[0]))), s, 'a real timeout is followed by a pre-vote', e.where(), p)
            mb = p.calls('~RaftJournal::getMembership$')
            cx.ob(any(F.entails(ne(('call', 'quarkdb::contains', Engine.project(m.ret, 'quarkdb::RaftMembership::nodes'), y), ZERO)) for m in mb for y in rets(p, 'RaftState::getMyself')), s, 'only a full member campaigns', e.where(), p)
            hb = rets(p, 'RaftHeartbeatTracker::getLastHeartbeat')
            cx.ob(any(F.entails(ne(h, t)) for h in hb for l in F.all() for t in subterms(l) if t[:1] in (('init',), ('hav',)) and last_field(t[-1]) == DI + 'lastHeartbeatBeforeVeto'), s, 'not after a veto until there was a heartbeat', e.where(), p)
            sn = p.calls('~RaftState::getSnapshot$')
            cx.ob(any(F.entails(AND(eq(fld(x.ret, SN + 'term'), fld(P(f, 0), SN + 'term')), eq(fld(x.ret, SN + 'status'), fld(P(f, 0), SN + 'status')))) for x in sn), s, 'only while the term and the role are unchanged', e.where(), p)
    cx.ob(n > 0, s, 'campaigns after a timeout')


@rule('R12', 'sanity', 'a node whose positions contradict each other does not run for leader')
def r12_sanity(cx):
    f = cx.fn(DI + 'checkBasicSanity')
    seen = set()
    for p, b, F in bool_cases(cx.paths(f, opaque=DOPQ[:-1] and tuple(o for o in DOPQ if 'Sanity' not in o))):
        la, ci, sz = rets(p, 'StateMachine::getLastApplied'), rets(p, 'RaftJournal::getCommitIndex'), rets(p, 'RaftJournal::getLogSize')
        cx.need(la and ci and sz, 'positions')
        seen.add(b)
        bad1, bad2 = gt(ci[-1], sz[-1]), gt(la[-1], ci[-1])
        if b:
            cx.ob(F.refutes(bad1) and F.refutes(bad2), 'checkBasicSanity', 'sane: applied is at most committed, committed at most the log size', None, p)
        else:
            cx.ob(F.entails(bad1) or F.entails(bad2), 'checkBasicSanity', 'insane only when a position contradicts another', None, p)
    cx.ob(seen == {True, False}, 'checkBasicSanity', 'decides')
