"""Wire format of the raft protocol: R20."""
from qdb.common import *

RR = 'quarkdb::RedisRequest::'
T = 'quarkdb::RaftTalker::'
PA = 'quarkdb::RaftParser::'
INT = 'quarkdb::ParseUtils::parseInt64'
SRV = 'quarkdb::parseServer'
OPQ = ('~parseInt64$', '~parseServer$', '~RaftServer::toString$', '~RaftEntry::deserialize$', '~RaftParser::fetchResponse$', '~RaftEntry::fetchTerm$')
STR, ARR = C(1), C(2)


def sent(cx, name):
    """[(path, chunks pushed into the request that is executed)]"""
    f = cx.fn(T + name)
    out = []
    for p in cx.paths(f, opaque=OPQ):
        ex = p.calls('~QClient::execute$')
        if p.outcome == 'throw':
            continue
        cx.ob(len(ex) == 1 and p.val is not None and p.val == ex[0].ret, 'RaftTalker::' + name, 'one request is sent and its answer awaited', None, p)
        if len(ex) != 1:
            continue
        c = Engine.project(ex[0].args[0], RR + 'contents')
        ms, base = muts(c)
        out.append((p, f, [a[0] if len(a) == 1 else a for m, a in ms if m.endswith(('emplace_back', 'push_back'))], base))
    cx.need(out, 'sender ' + name)
    return out


def istr(v):
    return ('call', 'std::to_string', v)


def unstr(v):
    """the number a decimal text was made from"""
    return v[2] if is_call(v, 'std::to_string', 'to_string') else None


def unsrv(v, evs):
    """the server a text was made from"""
    for e in evs:
        if e.ret == v or result(e) == v:
            return e.args[0] if e.args else e.obj
    if is_call(v, '~RaftServer::toString$'):
        return v[2]
    return None


def chunks_ok(cx, s, p, got, cmd, want, site):
    """the request is the command followed by the wanted values: ('int', v) or ('srv', v)"""
    cx.ob(len(got) == len(want) + 1 and got[0] == ('s', cmd), s, 'sends %s with %d arguments' % (cmd, len(want)), site, p)
    if len(got) != len(want) + 1:
        return
    evs = p.calls('~RaftServer::toString$')
    for i, (k, v) in enumerate(want):
        g = got[i + 1]
        good = unstr(g) == v if k == 'int' else unsrv(g, evs) == v
        cx.ob(good, s, 'argument %d of %s' % (i + 1, cmd), site, p)


def source_arg(f, i, kind='req'):
    return ('call', '[]', Engine.project(P(f, 0), RR + 'contents'), C(i))


def parsed(cx, name, table, n, cls):
    """on every accepting path the request has n chunks, and each field comes from its chunk, parsed successfully"""
    f = cx.fn(PA + name)
    s = 'RaftParser::' + name
    yes = no = 0
    for p in cx.paths(f, opaque=OPQ):
        if p.outcome != 'return':
            continue
        if p.facts.entails(eq(p.val, ZERO)):
            no += 1
            continue
        yes += 1
        cx.ob(p.facts.entails(eq(size(Engine.project(P(f, 0), RR + 'contents')), C(n))), s, 'accepts exactly %d chunks' % n, None, p)
        for i, (k, field) in enumerate(table):
            a = source_arg(f, i + 1)
            fn = INT if k == 'int' else SRV
            cx.ob(p.facts.entails(ne(('call', fn, a), ZERO)), s, 'chunk %d is a valid %s' % (i + 1, k), None, p)
            w = [e.val for e in p.events if e.kind == 'write' and last_field(e.loc) == cls + '::' + field]
            cx.ob(bool(w) and w[-1] == ('call', fn + '#1', a), s, '%s comes from chunk %d' % (field, i + 1), None, p)
    cx.ob(yes and no, s, 'accepts and rejects')


@rule('R20', 'requests', 'vote requests and heartbeats are decoded to the terms, positions and servers that were sent')
def r20_requests(cx):
    V = 'quarkdb::RaftVoteRequest::'
    for p, f, got, base in sent(cx, 'requestVote'):
        r = P(f, 0)
        pre = p.facts.entails(ne(P(f, 1), ZERO))
        cx.ob(pre or p.facts.entails(eq(P(f, 1), ZERO)), 'requestVote', 'pre-votes and votes are distinct commands', f['file'], p)
        g = lambda k: Engine.project(r, V + k)
        chunks_ok(cx, 'requestVote', p, got, 'RAFT_REQUEST_PRE_VOTE' if pre else 'RAFT_REQUEST_VOTE', [('int', g('term')), ('srv', g('candidate')), ('int', g('lastIndex')), ('int', g('lastTerm'))], f['file'])
    parsed(cx, 'voteRequest', [('int', 'term'), ('server', 'candidate'), ('int', 'lastIndex'), ('int', 'lastTerm')], 5, 'quarkdb::RaftVoteRequest')
    for p, f, got, base in sent(cx, 'heartbeat'):
        chunks_ok(cx, 'heartbeat', p, got, 'RAFT_HEARTBEAT', [('int', P(f, 0)), ('srv', P(f, 1))], f['file'])
    parsed(cx, 'heartbeat', [('int', 'term'), ('server', 'leader')], 3, 'quarkdb::RaftHeartbeatRequest')
    for p, f, got, base in sent(cx, 'fetch'):
        chunks_ok(cx, 'fetch', p, got, 'RAFT_FETCH', [('int', P(f, 0))], f['file'])


@rule('R20', 'append', 'an append request carries term, previous position and term, commit point, and every entry in order')
def r20_append(cx):
    int_codec(cx)
    s = 'appendEntries'
    n = 0
    for p, f, got, base in sent(cx, 'appendEntries'):
        n += 1
        term, leader, pidx, pterm, commit, ents = [P(f, i) for i in range(6)]
        ex = p.calls('~QClient::execute$')[0]
        w = {}
        for e in p.calls('quarkdb::intToBinaryString'):
            if len(e.args) == 2:
                w[e.args[1]] = e.args[0]
        binary = [x for x in p.calls('~vector::emplace_back$', '~vector::push_back$') for x in [x] if any(is_buf(a) for a in x.args)]
        cx.ob(len(binary) == 1, s, 'one binary header', None, p)
        if len(binary) == 1:
            b = [a for a in binary[0].args if is_buf(a)][0]
            buf, ln = b[2][0], b[2][1]
            cx.ob(ln == C(40), s, 'the header is five integers', binary[0].where(), p)
            order = [term, pidx, pterm, commit, size(ents)]
            cx.ob(all(w.get(add(buf, C(8 * i)) if i else buf) == v for i, v in enumerate(order)) and len(w) == 5, s, 'header: term, previous position, previous term, commit point, number of entries', binary[0].where(), p)
        first = [x for x in p.calls('~vector::emplace_back$', '~vector::push_back$') if not x.loops]
        cx.ob(len(first) >= 3 and first[0].args[0] == ('s', 'RAFT_APPEND_ENTRIES') and unsrv(first[1].args[0], p.calls('~RaftServer::toString$')) == leader and first[2:3] == binary[:1] and len(first) == 3, s, 'command, leader, header, in this order', None, p)
        if any(e.kind == 'loop' and e.info == 'begin' for e in p.events):
            lp = [x for x in p.calls('~vector::emplace_back$', '~vector::push_back$') if x.loops]
            cx.ob(len(lp) == 1 and (visits(p, lp[0].loops, lp[0].args[0], lambda c: c == ents) or is_call(lp[0].args[0], '[]') and lp[0].args[0][2] == ents and covers(p, lp[0], lp[0].args[0][3], C(0), size(ents))), s, 'every entry is sent, in order', None, p)
    f = cx.fn(PA + 'appendEntries')
    A = 'quarkdb::RaftAppendEntriesRequest::'
    h = source_arg(f, 2)
    data = ('call', 'data', h)
    at = lambda i: add(data, C(8 * i)) if i else data
    dec = lambda i: ('call', 'quarkdb::binaryStringToInt', at(i))
    z = size(Engine.project(P(f, 0), RR + 'contents'))
    yes = some = 0
    for p in cx.paths(f, opaque=OPQ, pure=('quarkdb::binaryStringToInt',)):
        s = 'RaftParser::appendEntries'
        if p.outcome != 'return' or p.facts.entails(eq(p.val, ZERO)):
            continue
        yes += 1
        F = p.facts
        cx.ob(F.entails(eq(size(h), C(40))), s, 'the header is five integers', None, p)
        cx.ob(F.entails(ne(('call', SRV, source_arg(f, 1)), ZERO)), s, 'the leader is a valid server', None, p)
        wr = {}
        for e in p.events:
            if e.kind == 'write' and last_field(e.loc).startswith(A):
                wr[last_field(e.loc)[len(A):]] = e.val
        cx.ob(wr.get('leader') == ('call', SRV + '#1', source_arg(f, 1)), s, 'leader is the first argument', None, p)
        for i, k in enumerate(('term', 'prevIndex', 'prevTerm', 'commitIndex')):
            cx.ob(wr.get(k) == dec(i), s, '%s is integer %d of the header' % (k, i), None, p)
        cx.ob(F.entails(eq(z, add(dec(4), C(3)))), s, 'as many entries as announced', None, p)
        for e in p.calls('~RaftEntry::deserialize$'):
            some += 1
            rs = [x for x in p.events if x.kind == 'write' and last_field(x.loc) == A + 'entries' and x.n < e.n]
            ms, base = muts(rs[-1].val) if rs else ([], None)
            cx.ob(bool(ms) and ms[-1][0].endswith('::resize') and ms[-1][1] == (dec(4),), s, 'there is a place for each announced entry', e.where(), p)
            j = e.arglocs[0]
            src = e.args[1]
            ok_ = is_call(src, '[]') and j is not None and j[0] == 'ix' and covers(p, e, j[2], C(0), dec(4))
            cx.ob(ok_, s, 'every entry is decoded into its own place', e.where(), p)
            if not ok_:
                continue
            l1, l2 = loop_range(p, e, j[2]), loop_range(p, e, src[3])
            cx.ob(l2 is not None and l2[1] == 1 and src[2] == Engine.project(P(f, 0), RR + 'contents') and e.facts.eqv(sub(l2[0], l1[0]), C(3)) or e.facts.eqv(src[3], add(j[2], C(3))), s, 'entry i is chunk i+3', e.where(), p)
    cx.ob(yes and n and some, 'RaftParser::appendEntries', 'accepts requests with entries')


def is_buf(a):
    return isinstance(a, tuple) and len(a) == 3 and a[0] == 'ctor' and a[1] in ('std::string', 'std::string_view') and len(a[2]) == 2 and a[2][0][:1] == ('addr',)


def reply_el(src, i):
    return ('d', ('call', '[]', ('init', ('d', ('init', ('f', ('d', src), 'redisReply::element')))), i if isinstance(i, tuple) else C(i)))


def reply_txt(src, i):
    g = lambda k: ('init', ('f', reply_el(src, i), 'redisReply::' + k))
    return ('ctor', 'std::string', (g('str'), g('len')))


def rf(src, k):
    return ('init', ('f', ('d', src), 'redisReply::' + k))


def all_strings(p, src, n):
    ty = lambda i: eq(('init', ('f', reply_el(src, i), 'redisReply::type')), STR)
    if all(p.facts.entails(ty(i)) for i in range(n)):
        return True
    for e in p.events:
        if e.kind == 'loop' and e.info == 'iterend':
            lid = e.val[1]
            if any(x.info == 'break' for x in loop_events(p, lid)):
                continue
            for v, cur, end in e.args or ():
                beg = [b for b in loop_events(p, lid) if b.info == 'begin'][0]
                ent = [a for v2, a, b in beg.args if v2 == v]
                ex = [(x.facts, b) for x in loop_events(p, lid) if x.info == 'exit' for v2, _, b in x.args if v2 == v]
                if e.facts.entails(ty(cur)) and e.facts.entails(lt(cur, rf(src, 'elements'))) and stepped(cur, end) and ent and is_zero(ent[0]) and ex and ex[0][0].entails(ge(ex[0][1], rf(src, 'elements'))):
                    return True
    return False


def response(cx, name, cls, table):
    """writer: toVector of the response; reader: RaftParser::name"""
    f = cx.fn(cls + '::toVector')
    sent_ = []
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        ms, base = muts(p.val)
        sent_.append((p, [a[0] for m, a in ms]))
        cx.ob(len(ms) == len(table), short(cls), 'has %d parts' % len(table), f['file'], p)
    g = cx.fn(PA + name)
    s = 'RaftParser::' + name
    src = P(g, 0)
    acc = {}
    rej = 0
    for p in cx.paths(g, opaque=OPQ):
        if p.outcome != 'return':
            continue
        if p.facts.entails(eq(p.val, ZERO)):
            rej += 1
            continue
        F = p.facts
        cx.ob(F.entails(AND(ne(src, ZERO), eq(rf(src, 'type'), ARR), eq(rf(src, 'elements'), C(len(table))))), s, 'accepts exactly an array of %d elements' % len(table), None, p)
        cx.ob(all_strings(p, src, len(table)), s, 'all of them strings', None, p)
        for i, (k, field) in enumerate(table):
            t = reply_txt(src, i)
            w = [e.val for e in p.events if e.kind == 'write' and last_field(e.loc) == cls + '::' + field]
            if k == 'int':
                cx.ob(F.entails(ne(('call', INT, t), ZERO)) and bool(w) and w[-1] == ('call', INT + '#1', t), s, '%s is element %d, which must be a number' % (field, i), None, p)
            elif k == 'text':
                cx.ob(bool(w) and w[-1] == t, s, '%s is element %d' % (field, i), None, p)
            else:
                hit = [x for x in k if F.entails(eq(t, ('s', x)))]
                cx.ob(len(hit) == 1 and bool(w) and (w[-1] == k[hit[0]] or F.entails(eq(w[-1], k[hit[0]]))), s, '%s has the meaning of its word' % field, None, p)
                acc.setdefault(field, set()).update(hit)
    for i, (k, field) in enumerate(table):
        mine = ('init', ('f', ('d', ('this',)), cls + '::' + field))
        if isinstance(k, dict):
            cx.ob(acc.get(field) == set(k), s, 'every word of %s is understood' % field, g['file'])
        for p, parts in sent_:
            if len(parts) != len(table):
                continue
            v = parts[i]
            if k == 'int':
                good = unstr(v) == mine
            elif k == 'text':
                good = v == mine
            elif v[0] == 's':
                good = v[1] in k and p.facts.entails(eq(mine, k[v[1]]))
            else:
                good = unstr(v) == mine and set(k) == {'0', '1'} and k['0'] == C(0) and k['1'] == C(1)
            cx.ob(good, short(cls) + '::toVector', '%s is part %d' % (field, i), f['file'], p)
    cx.ob(bool(acc or sent_) and rej > 0, s, 'accepts and rejects')


@rule('R20', 'responses', 'the answers to heartbeats, appends and vote requests are decoded to what was answered')
def r20_responses(cx):
    v = lambda x: ('e', 'quarkdb::RaftVote::' + x)
    bit = {'0': C(0), '1': C(1)}
    response(cx, 'voteResponse', 'quarkdb::RaftVoteResponse', [('int', 'term'), ({'granted': v('GRANTED'), 'refused': v('REFUSED'), 'veto': v('VETO')}, 'vote')])
    response(cx, 'heartbeatResponse', 'quarkdb::RaftHeartbeatResponse', [('int', 'term'), (bit, 'nodeRecognizedAsLeader'), ('text', 'err')])
    response(cx, 'appendEntriesResponse', 'quarkdb::RaftAppendEntriesResponse', [('int', 'term'), ('int', 'logSize'), (bit, 'outcome'), ('text', 'err')])


@rule('R20', 'answers', 'the dispatcher answers each raft request with the response to that request')
def r20_answers(cx):
    from rules.r_dispatch import req_dispatch, cmd_is, D
    f, paths = req_dispatch(cx)
    want = {'RAFT_HEARTBEAT': ('heartbeat', 'heartbeat'), 'RAFT_APPEND_ENTRIES': ('appendEntries', 'appendEntries'), 'RAFT_REQUEST_VOTE': ('voteRequest', 'requestVote'), 'RAFT_REQUEST_PRE_VOTE': ('voteRequest', 'requestVote')}
    seen = set()
    for p in paths:
        for e in p.calls('~RaftDispatcher::heartbeat$', '~RaftDispatcher::appendEntries$', '~RaftDispatcher::requestVote$'):
            cmds = [c for c in want if cmd_is(e.facts, P(f, 1), c)]
            if len(cmds) != 1:
                cx.ob(False, 'dispatch', 'raft requests are answered for their own command', e.where(), p)
                continue
            c = cmds[0]
            pars, fn = want[c]
            seen.add(c)
            cx.ob(e.name == D + fn, 'dispatch', c + ' is handled by ' + fn, e.where(), p)
            ps = [x for x in p.calls('~RaftParser::' + pars + '$') if x.n < e.n and e.facts.entails(ne(result(x), ZERO))]
            cx.ob(len(ps) == 1 and e.args[0] in (outv(ps[0], 1), ('mv', outv(ps[0], 1))), 'dispatch', c + ': only a request that parses is answered', e.where(), p)
            if fn == 'requestVote':
                pre = c == 'RAFT_REQUEST_PRE_VOTE'
                cx.ob(e.args[1] in (C(1), ('c', True)) if pre else e.args[1] in (C(0), ('c', False)), 'dispatch', c + ': pre-vote or vote as asked', e.where(), p)
            if p.outcome == 'return':
                tv = [x for x in p.calls('~toVector$') if x.n > e.n]
                cx.ob(bool(tv) and (tv[0].obj == e.ret or repr(e.ret) in repr(tv[0].obj)) and any(repr(result(tv[0])) in repr(y.args) for y in p.calls('~Connection::vector$')), 'dispatch', c + ': the answer is sent back', e.where(), p)
    cx.ob(seen == set(want), 'dispatch', 'all raft requests are handled: ' + ' '.join(sorted(seen)))


@rule('R20', 'fetched', 'a fetched entry is decoded to its term and the parts of its request, in order')
def r20_fetched(cx):
    f = cx.fn('quarkdb::Formatter::raftEntry')
    ent = P(f, 0)
    E_ = 'quarkdb::RaftEntry::'
    g = cx.fn(PA + 'fetchResponse')
    s = 'RaftParser::fetchResponse'
    src = P(g, 0)
    yes = no = some = 0
    for p in cx.paths(g, opaque=tuple(o for o in OPQ if 'fetchResponse' not in o), pure=('~StringUtils::startsWith$',)):
        if p.outcome != 'return':
            continue
        if p.facts.entails(eq(p.val, ZERO)):
            no += 1
            continue
        yes += 1
        F = p.facts
        ty = lambda i: ('init', ('f', reply_el(src, i), 'redisReply::type'))
        cx.ob(F.entails(AND(ne(src, ZERO), eq(rf(src, 'type'), ARR), eq(rf(src, 'elements'), C(2)), eq(ty(0), STR), eq(ty(1), ARR))), s, 'accepts exactly a term and a list', None, p)
        t = reply_txt(src, 0)
        cx.ob(any(F.entails(ne(x, ZERO)) and x[2] == t and x[3] == ('s', 'TERM: ') for l in F.all() for x in subterms(l) if is_call(x, '~startsWith$')), s, 'the term is announced as such', None, p)
        pi = [e for e in p.calls('~parseInt64$')]
        num = pi[0].args[0] if pi else NOTHING
        cx.ob(len(pi) == 1 and F.entails(ne(result(pi[0]), ZERO)) and num == ('ctor', 'std::string', (add(('call', 'data', t), C(6)), sub(t[2][1], C(6)))), s, 'the number after it is the term', None, p)
        w = [e.val for e in p.events if e.kind == 'write' and last_field(e.loc) == E_ + 'term']
        cx.ob(bool(w) and bool(pi) and w[-1] == outv(pi[0], 1), s, 'the term of the entry is the one received', None, p)
        inner = ('call', '[]', ('init', ('d', ('init', ('f', ('d', src), 'redisReply::element')))), C(1))
        cl = p.calls('~vector::clear$')
        eb = p.calls('~vector::emplace_back$', '~vector::push_back$')
        for e in eb:
            some += 1
            a = e.args[0]
            idx = [x[1][1][3] for x in subterms(a) if len(x) == 3 and x[0] == 'f' and x[2] == 'redisReply::str' and is_call(x[1][1], '[]')]
            cx.ob(len(idx) == 1 and a == reply_txt(inner, idx[0]) and covers(p, e, idx[0], C(0), rf(inner, 'elements')), s, 'every part of the request, in order', e.where(), p)
            cx.ob(any(c.n < e.n for c in cl), s, 'into an empty request', e.where(), p)
        strs = any(e.facts.entails(eq(('init', ('f', reply_el(inner, cur), 'redisReply::type')), STR)) and covers_loop(p, e, v, rf(inner, 'elements'))
                   for e in p.events if e.kind == 'loop' and e.info == 'iterend' for v, cur, end in e.args or ()) or F.entails(le(rf(inner, 'elements'), ZERO))
        cx.ob(strs, s, 'all parts are strings', None, p)
    cx.ob(yes and no and some, s, 'accepts and rejects')
    g = cx.fn(PA + 'fetchLastResponse')
    s = 'RaftParser::fetchLastResponse'
    src = P(g, 0)
    n = 0
    for p in cx.paths(g, opaque=OPQ):
        if p.outcome != 'return' or p.facts.entails(eq(p.val, ZERO)):
            continue
        cx.ob(p.facts.entails(AND(ne(src, ZERO), eq(rf(src, 'type'), ARR))), s, 'accepts only an array', None, p)
        for e in p.calls('~fetchResponse$'):
            n += 1
            cx.ob(p.facts.entails(ne(e.ret, ZERO)), s, 'every entry must be well-formed', e.where(), p)
            j = e.arglocs[1]
            lr = loop_range(p, e, j[2]) if j is not None and j[0] == 'ix' else None
            cx.ob(lr is not None and is_zero(lr[0]) and lr[1] == 1 and not lr[3] and is_call(e.args[0], '[]') and e.args[0][3] == j[2], s, 'entry i is decoded into place i', e.where(), p)
    cx.ob(n > 0, s, 'accepts entries')
    n = 0
    s = 'Formatter::raftEntry'
    for p in cx.paths(f, opaque=OPQ + ('~Formatter::string$', '~Formatter::strvec$', '~Formatter::vector$', '~ArrayResponseBuilder::', '~edisRequest$')):
        if p.outcome != 'return':
            continue
        n += 1
        pb = p.calls('~ArrayResponseBuilder::push_back$')
        bare = p.facts.entails(eq(P(f, 2), C(-1)))
        cx.ob(len(pb) == (2 if bare else 3), s, 'a term and a list, after the index if asked', f['file'], p)
        t = [e for e in p.calls('~Formatter::string$')]
        term = Engine.project(ent, E_ + 'term')
        cx.ob(bool(t) and len(pb) > 1 and t[-1].n < pb[-2].n and t[-1].args[0] == ('cat', (('s', 'TERM: '), istr(term))) and (len(pb) < 2 or len(t) < 2 or t[-2].n < pb[0].n), s, 'the term is announced', f['file'], p)
        r = p.calls('~edisRequest$')
        cx.ob(len(r) == 1 and r[0].args[0] == Engine.project(ent, E_ + 'request') and len(pb) > 1 and pb[-2].n < r[0].n < pb[-1].n, s, 'the request follows', f['file'], p)
        cx.ob(len(r) == 1 and (not p.facts.entails(ne(P(f, 1), ZERO)) or r[0].name.endswith('::simpleRedisRequest')), s, 'as it is stored when asked raw', f['file'], p)
        c = p.calls('~ArrayResponseBuilder::ArrayResponseBuilder$')
        cx.ob(len(c) == 1 and decide(p.facts, c[0].args[0]) == C(2 if bare else 3), s, 'the array announces its size', f['file'], p)
        cx.ob(is_ret(p.val, '~buildResponse$'), s, 'the array is returned', f['file'], p)
    cx.ob(n, s, 'formats')


def covers_loop(p, e, var, hi):
    lid = e.val[1]
    if any(x.info == 'break' for x in loop_events(p, lid)):
        return False
    b = [(a, c) for x in loop_events(p, lid) if x.info == 'begin' for v, a, c in x.args if v == var]
    x = [(q.facts, c) for q in loop_events(p, lid) if q.info == 'exit' for v, _, c in q.args if v == var]
    i = [(q.facts, a, c) for q in loop_events(p, lid) if q.info == 'iterend' for v, a, c in q.args if v == var]
    return bool(b and x and i) and is_zero(b[0][0]) and all(stepped(a, c) and f.entails(lt(a, hi)) for f, a, c in i) and all(f.entails(ge(c, hi)) for f, c in x)
