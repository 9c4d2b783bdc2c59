"""Serving requests: C08, C11, S09."""
from qdb.common import *
from rules.r_store import contains_term
from rules.r_cmd import RC, CT, RRQ, AD, N, command_table, served, nargs, walk, short

RD = 'quarkdb::RedisDispatcher::'
CONTENTS = RRQ + 'contents'
OPQ = ('~StateMachine::', '~Formatter::', '~RedisDispatcher::', '~VersionedHash', '~ParseUtils', '~parseScanCommand', '~StringUtils', '~Transaction::', '~quotes', '~caseIns',
       '~Connection::', '~Shard', '~Raft[A-Z]\\w+::', '~Link', '~Publisher::', '~QuarkDBNode::', '~Recovery\\w+::', '~Authenticat', '~InFlight', '~CommandMonitor', '~ResilveringEventID', '~NodeHealth')
# replies one connection call gives
REPLY = '~Connection::(raw|err|ok|null|noauth|status|string|integer|fromStatus|moved|pong|scan|vector|statusVector|errArgs|addPendingTransaction)$'
NESTED = '~(Dispatcher|Shard|QuarkDBNode|Publisher)::(dispatch|dispatchPubsub|dispatchInfo|service)$'


def request_params(g):
    return [i for i, x in enumerate(g['params']) if x['t'].replace('const ', '').rstrip('&* ') == 'quarkdb::RedisRequest']


def at_count(lits, size_, n):
    """may the facts hold when the size term has the value n?"""
    def ev(t):
        if t == size_:
            return n
        if is_num(t):
            return t[1]
        if t[0] == 'lin':
            r = t[1]
            for x, k in t[2]:
                v = ev(x)
                if v is None:
                    return None
                r += k * v
            return r
        if t[0] == 'op' and len(t) == 4:
            a, b = ev(t[2]), ev(t[3])
            if a is None or b is None or t[1] in '%/' and b == 0:
                return None
            return {'%': lambda: a - b * int(a / b), '/': lambda: int(a / b), '*': lambda: a * b, '&': lambda: a & b}.get(t[1], lambda: None)()
        return None

    def holds(l):
        if l[0] == 'or':
            return any(holds(x) for x in l[1:] if isinstance(x, tuple)) if all(isinstance(x, tuple) for x in l[1:]) else True
        if l[0] == 'and':
            return all(holds(x) for x in l[1:])
        if l[0] not in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') or len(l) != 3:
            return True
        s = 0
        for x, k in l[1]:
            v = ev(x)
            if v is None:
                return True
            s += k * v
        c = l[2]
        return {'eq': s == c, 'ne': s != c, 'lt': s < c, 'le': s <= c, 'gt': s > c, 'ge': s >= c}[l[0]]
    return all(holds(l) for l in lits)


def in_steps(p, e, i, n):
    """index i belongs to a loop walking whole groups of a length that divides what there is"""
    r = loop_range(p, e, i)
    if r is None or r[1] is None or r[1] < 1:
        return False
    entry, step = r[0], r[1]
    for k in range(step):
        # the loop's own counter is i - k
        if is_num(entry) and entry[1] - k >= 0 and e.facts.entails(lt(sub(i, C(k)), n)):
            start = C(entry[1] - k)
            if e.facts.entails(eq(('op', '%', sub(n, start), C(step)), ZERO)):
                return True
    return False


@rule('C11', 'range', 'no word of a request is read before the number of words is known to include it')
def c11_range(cx):
    fs = []
    for g in cx.p.fn.values():
        if not g.get('body') or g['name'].startswith(RRQ) or not request_params(g):
            continue
        # written by the node itself or by its peers, not by clients: R17 and C06; made here: C10
        if match(g['name'], ('~RaftParser::appendEntries$', '~Formatter::redisRequest$', '~RedisParser::fetch$')):
            continue
        if any(c.get('k') == 'call' and c.get('f', '') in (RRQ + 'operator[]', RRQ + 'getPinnedBuffer', RRQ + 'begin') for c in walk(g['body'])):
            fs.append(g)
    cx.need(len(fs) > 8, 'functions that read the words of a request')
    for f in fs:
        s = short(f['name'])
        bounds = {P(f, i): nargs(P(f, i)) for i in request_params(f)}
        for p in cx.paths(f, opaque=OPQ):
            for e in p.events:
                if e.kind == 'index' and e.loc[0] == 'ix' and e.obj is not None:
                    r = [x for x in bounds if e.obj == Engine.project(x, CONTENTS)]
                    if not r:
                        continue
                    i, n = e.loc[2], bounds[r[0]]
                    # a request a client sent has at least one word (C10)
                    good = i == ZERO or all(F.entails(lt(i, n)) and F.entails(ge(i, ZERO)) or in_steps(p, e, i, n) for F in e.facts.with_(ge(n, C(1))))
                    cx.ob(good, s, 'reads only words that are there', e.where(), p)
                elif e.kind == 'call':
                    for x, n in bounds.items():
                        b = ('call', 'begin', Engine.project(x, CONTENTS))
                        for a in e.args:
                            k = sub(a, b) if isinstance(a, tuple) and a and contains_term(a, b) else None
                            if k is not None and is_num(k) and k != ZERO:
                                cx.ob(all(F.entails(ge(n, k)) for F in e.facts.with_(ge(n, C(1)))), s, 'starts no walk behind the last word', e.where(), p)


# number of words each command takes, itself included: numbers, (at least,), (at least, multiple of, remainder)
ARITY = {
    'FLUSHALL': 1, 'SET': 3, 'DEL': (2,), 'HSET': 4, 'HSETNX': 4, 'HMSET': (4, 2, 0), 'HINCRBY': 4, 'HINCRBYMULTI': (4, 3, 1), 'HINCRBYFLOAT': 4, 'HDEL': (3,), 'HCLONE': 3,
    'SADD': (3,), 'SREM': (3,), 'SMOVE': 4, 'DEQUE_PUSH_FRONT': (3,), 'DEQUE_PUSH_BACK': (3,), 'DEQUE_POP_FRONT': 2, 'DEQUE_POP_BACK': 2, 'DEQUE_TRIM_FRONT': 3, 'DEQUE_CLEAR': 2,
    'CONFIG_SET': 3, 'LHSET': 5, 'LHDEL': (3,), 'LHLOCDEL': 4, 'LHMSET': (5, 3, 2), 'LHSET_AND_DEL_FALLBACK': 6, 'LHDEL_WITH_FALLBACK': 4, 'CONVERT_HASH_FIELD_TO_LHASH': 6,
    'TIMESTAMPED_LEASE_ACQUIRE': 5, 'TIMESTAMPED_LEASE_GET': 3, 'TIMESTAMPED_LEASE_RELEASE': 3, 'ARTIFICIALLY_SLOW_WRITE_NEVER_USE_THIS': 2, 'VHSET': 4, 'VHDEL': (3,),
    'TYPE': 2, 'GET': 2, 'EXISTS': (2,), 'KEYS': 2, 'SCAN': (2,), 'HGET': 3, 'HEXISTS': 3, 'HKEYS': 2, 'HGETALL': 2, 'HLEN': 2, 'HVALS': 2, 'HSCAN': (3,), 'SISMEMBER': 3, 'SMEMBERS': 2,
    'SCARD': 2, 'SSCAN': (3,), 'DEQUE_LEN': 2, 'DEQUE_SCAN_BACK': (3,), 'CONFIG_GET': 2, 'CONFIG_GETALL': 1, 'LHGET': [3, 4], 'LHSCAN': (3,), 'LHGET_WITH_FALLBACK': [4, 5], 'LHLEN': 2,
    'RAW_SCAN': [1, 2, 4], 'RAW_SCAN_TOMBSTONES': [1, 2, 4], 'RAW_GET_ALL_VERSIONS': 2, 'CLOCK_GET': 1, 'LEASE_GET_PENDING_EXPIRATION_EVENTS': 1, 'VHGETALL': 2, 'VHLEN': 2,
    'PUBLISH': 3, 'SUBSCRIBE': (2,), 'PSUBSCRIBE': (2,), 'UNSUBSCRIBE': (2,), 'PUNSUBSCRIBE': (2,),
    'AUTH': 2, 'HMAC_AUTH_GENERATE_CHALLENGE': 2, 'HMAC_AUTH_VALIDATE_CHALLENGE': 2,
    'PING': [1, 2], 'CONVERT_STRING_TO_INT': 2, 'CONVERT_INT_TO_STRING': 2,
}


def takes(spec, n):
    if isinstance(spec, list):
        return n in spec
    if isinstance(spec, int):
        return n == spec
    return n >= spec[0] and (len(spec) == 1 or n % spec[1] == spec[2])


@rule('C11', 'arity', 'each command is served with the words it takes, and refused otherwise')
def c11_arity(cx):
    hs = [(cx.fn(RD + 'dispatchRead'), 1), (cx.fn(RD + 'dispatchWrite'), 1), (cx.fn('quarkdb::Publisher::dispatch', pred=lambda f: 'RedisRequest' in f['params'][1]['t']), 1),
          (cx.fn('quarkdb::Dispatcher::handleConversion'), 0), (cx.fn('quarkdb::Dispatcher::handlePing'), 0),
          (cx.fn(AD + 'dispatch', pred=lambda f: len(f['params']) == 3), 0)]
    seen = set()
    for f, i in hs:
        s = short(f['name'])
        m = served(cx, f, i)
        sz = nargs(P(f, i))
        for c, ps in sorted((c, ps) for c, ps in m.items() if c):
            if c not in ARITY:
                continue
            good, bad = [], []
            for p in ps:
                if p.outcome == 'throw':
                    continue
                refused = any(is_err_args(p.val) or e.name.endswith('::errArgs') for e in p.calls('~errArgs$')) or p.val is not None and contains_errargs(p.val)
                (bad if refused else good).append(p)
            if not good:
                continue
            seen.add(c)
            for n in range(1, 14):
                ok = [p for p in good if at_count(p.facts.all(), sz, n)]
                no = [p for p in bad if at_count(p.facts.all(), sz, n)]
                want = takes(ARITY[c], n)
                cx.ob(bool(ok) == want and bool(no) == (not want), s, '%s %s %d words' % (c, 'takes' if want else 'refuses', n), f['file'], (ok + no + [None])[0] if not want or no else None)
    for c in ARITY:
        cx.need(c in seen, 'the handler of %s' % c)


def is_err_args(v):
    return v is not None and (is_call(v, '~errArgs$') or v[0] == 'ret' and v[2].endswith('errArgs'))


def contains_errargs(v):
    return any(is_err_args(t) for t in subterms(v) if len(t) > 2 and isinstance(t[0], str) and isinstance(t[2], str) or t[:1] == ('call',))


@rule('C11', 'reply', 'every request is answered exactly once')
def c11_reply(cx):
    made = ('~Formatter::', '~(Redis|Recovery)?Dispatcher::\\w+$', '~ArrayResponseBuilder::buildResponse$')

    def proper(v):
        return v is not None and (v[0] == 'ret' and match(v[2], made) or v[0] == 'call' and match(v[1], made))
    fs = [g for g in cx.p.fn.values() if g.get('body') and g['ret'] == 'quarkdb::RedisEncodedResponse' and match(g['name'], ('~(Redis|Recovery)?Dispatcher::(dispatch|handle|errArgs)\\w*$',))]
    cx.need(len(fs) >= 12, 'functions that make replies')
    for f in fs:
        k = 0
        for p in cx.paths(f, opaque=OPQ + ('~ArrayResponseBuilder::',)):
            if p.outcome != 'return':
                continue
            k += 1
            cx.ob(proper(p.val), short(f['name']), 'returns a reply', f['file'], p)
        cx.ob(k > 0, short(f['name']), 'replies')
    conn = lambda g: [i for i, x in enumerate(g['params']) if x['t'].rstrip('* ') == 'quarkdb::Connection']
    fs = [g for g in cx.p.fn.values() if g.get('body') and g['ret'] == 'int' and conn(g) and match(g['name'], ('~(Dispatcher|Shard|QuarkDBNode|Publisher|MultiHandler)::(dispatch|service|process)\\w*$',))]
    cx.need(len(fs) >= 15, 'functions that answer on a connection')
    for f in fs:
        s = short(f['name'])
        c = P(f, conn(f)[0])
        rq = request_params(f)
        n = 0
        for p in cx.paths(f, opaque=OPQ + ('~RedisDispatcher::', '~WriteTracker::', '~MultiHandler::')):
            if p.outcome != 'return':
                continue
            n += 1
            direct = [e for e in p.calls(REPLY) if e.obj is not None and (e.obj == c or e.objloc == ('d', c))]
            nested = [e for e in p.calls(NESTED) if c in e.args]
            queued = [e for e in p.calls('~RaftWriteTracker::append$') if p.facts.entails(ne(result(e), ZERO))]
            put = [e for e in p.calls('~Transaction::push_back$')] if f['name'].endswith('MultiHandler::process') else []
            k = len(direct) + len(nested) + len(queued)
            if match(f['name'], ('~Publisher::dispatch$',)) and rq:
                # one reply for each channel, and one more on connections with push types: C12
                if any(cmd_of(p, P(f, rq[0]), x) for x in ('SUBSCRIBE', 'PSUBSCRIBE', 'UNSUBSCRIBE', 'PUNSUBSCRIBE')):
                    continue
            if put:
                # queued: answered at once, unless part of an implicit batch, whose replies come with it
                ph = [e for e in p.calls('~Transaction::isPhantom$')]
                silent = any(p.facts.entails(ne(result(e), ZERO)) for e in ph)
                cx.ob(k == (0 if silent else 1), s, 'a queued command is acknowledged', f['file'], p)
                continue
            cx.ob(k == 1, s, 'answers exactly once', f['file'], p)
        cx.ob(n > 0 or f['name'].endswith('Publisher::dispatch') or 'Transaction' in f['params'][-1]['t'], s, 'answers')


def cmd_of(p, req, name):
    return p.facts.entails(eq(Engine.project(req, RRQ + 'command'), ('e', RC + name)))


# ---------------------------------------------------------------- C11: no request stops the server
@rule('C11', 'stop', 'no words of a request make an assertion fail')
def c11_stop(cx):
    # 1. the dispatchers: what stops the process depends on the state of the store, never on the request alone
    internal = {'TIMESTAMPED_LEASE_ACQUIRE', 'TIMESTAMPED_LEASE_GET', 'TIMESTAMPED_LEASE_RELEASE', 'TX_READONLY', 'TX_READWRITE'}   # C07 keeps clients from sending these
    for f, i in ((cx.fn(RD + 'dispatchRead'), 1), (cx.fn(RD + 'dispatchWrite'), 1), (cx.fn('quarkdb::Dispatcher::handleConversion'), 0), (cx.fn('quarkdb::Dispatcher::handlePing'), 0),
                 (cx.fn(AD + 'dispatch', pred=lambda f: len(f['params']) == 3), 0), (cx.fn('quarkdb::Publisher::dispatch', pred=lambda f: 'RedisRequest' in f['params'][1]['t']), 1),
                 (cx.fn('quarkdb::RaftDispatcher::dispatch', pred=lambda f: 'RedisRequest' in f['params'][1]['t']), 1), (cx.fn('quarkdb::Shard::dispatch', pred=lambda f: 'RedisRequest' in f['params'][1]['t']), 1),
                 (cx.fn(N + 'dispatch', pred=lambda f: 'RedisRequest' in f['params'][1]['t']), 1)):
        s = short(f['name'])
        own = subset_of(P(f, i))
        k = 0
        for p in cx.paths(f, opaque=OPQ):
            k += 1
            if p.outcome != 'throw':
                continue
            req = P(f, i)
            if any(cmd_of(p, req, c) for c in internal):
                continue
            lits = p.facts.all()
            # which command and class the request has: decided by the table (C04)
            if all(only_about(l, (Engine.project(req, RRQ + 'command'), Engine.project(req, RRQ + 'commandType'))) for l in lits):
                continue
            if not decided_by_word(p, req) and unknown_command(p, req):
                continue
            cx.ob(any(not own(l) for l in lits), s, 'no request stops the process', f['file'], p)
        cx.ob(k > 0, s, 'is there')
    # 2. what locality hash locators require of their arguments holds wherever they are made
    need = {}
    for cls in ('quarkdb::LocalityFieldLocator', 'quarkdb::LocalityIndexLocator'):
        for g in cx.p.methods(cls):
            if not g.get('body'):
                continue
            for p in cx.paths(g, opaque=('~StringUtils', '~appendEscaped', '~KeyBuffer', '~SmartBuffer')):
                if p.outcome == 'throw':
                    for i in range(len(g['params'])):
                        if p.facts.entails(eq(size(P(g, i)), ZERO)):
                            need.setdefault(g['key'], set()).add(i)
    cx.need(need, 'assertions of locality locators')
    SMN = 'quarkdb::StateMachine::'
    fs = [g for g in cx.p.fn.values() if g.get('body') and g['name'].startswith(SMN) and not g['name'].startswith(SMN + 'StateMachine')
          and any(c.get('k') in ('call', 'ctor', 'new') and ('Localit' in str(c.get('key')) + str(c.get('f')) or SMN in str(c.get('f'))) for c in walk(g['body']))]
    calls = {}
    made = {}
    for g in fs:
        for p in cx.paths(g, opaque=('~StateMachine::', '~Locator::', '~StagingArea::', '~KeyDescriptor::', '~StringUtils', '~Iterator', '~EscapedPrefixExtractor::parse'), pure=('~extractPatternPrefix$', '~EscapedPrefixExtractor::get')):
            for e in p.calls('~.'):
                calls.setdefault(g['key'], []).append((e, p))
                if e.name.endswith('WriteOperation::WriteOperation') and ('e', 'quarkdb::KeyType::kLocalityHash') in e.args:
                    made.setdefault(g['key'], []).append((e, p))
    again = True
    while again:
        again = False
        for k, es in calls.items():
            g = cx.p.fn[k]
            for e, p in es:
                for i in need.get(e.key, ()):
                    if i < len(e.args) and not e.facts.entails(ne(size(e.args[i]), ZERO)):
                        for j in range(len(g['params'])):
                            if e.args[i] == P(g, j) and j not in need.setdefault(k, set()):
                                need[k].add(j)
                                again = True
    served_ = {c['key'] for h in ('dispatchRead', 'dispatchWrite', 'dispatchLHSET', 'dispatchLHDEL', 'dispatchHDEL', 'dispatchHGET', 'dispatchLHGET') for c in walk(cx.fn(RD + h)['body'])
               if c.get('k') == 'call' and str(c.get('f', '')).startswith(SMN)}
    cx.need(len(served_) > 30, 'operations of the store')
    for k in sorted(served_):
        g = cx.p.fn.get(k)
        if g is None:
            continue
        s = short(g['name'])
        cx.ob(not need.get(k), s, 'takes any key, field and hint', g['file'])
        for e, p in calls.get(k, []):
            for i in need.get(e.key, ()):
                if i >= len(e.args):
                    continue
                a = e.args[i]
                good = e.facts.entails(ne(size(a), ZERO)) or from_store(a) or found_in_store(a, e.facts) or checked_before(a, e, p)
                cx.ob(good, s, 'hands on only words that are not empty', e.where(), p)
        for e0, p in made.get(k, []):
            cx.ob(P(g, 1) in e0.args, s, 'changes the locality hash it was asked to', e0.where(), p)
            for e in p.calls('~WriteOperation::\\w*Locality(Field|Index)\\w*$', '~lhsetInternal$'):
                cx.ob(e.facts.entails(ne(size(P(g, 1)), ZERO)) or emptiness_checked(P(g, 1), e, p), s, 'changes only locality hashes with a name', e.where(), p)


def subset_of(req):
    def own(l):
        roots = [t for t in subterms(l) if isinstance(t, tuple) and t and (t[0] in ('p', 'init', 'ret', 'out', 'hav', 'g', 'gv', 'fresh') and len(t) > 1)]
        return all(t == req or t[0] == 'init' and contains_term(t, req) for t in roots)
    return own


def only_about(l, terms):
    rest = [t for t in subterms(l) if t[:1] == ('.',)]
    return bool(rest) and all(t in terms or any(contains_term(u, t) for u in terms) for t in rest) and not [t for t in subterms(l) if t[0] in ('ret', 'out', 'hav', 'init', 'call')]


def unknown_command(p, req):
    c = Engine.project(req, RRQ + 'command')
    return not any(l[0] == 'eq' and contains_term(l, c) for l in p.facts.all())


def decided_by_word(p, req):
    n = nargs(req)
    return any(contains_term(l, n) for l in p.facts.all())


def from_store(a):
    return any(t[0] == 'out' and match(t[2], ('~StagingArea::get', '~getLocalityIndex$', '~getAndDeleteLocalityIndex$')) for t in subterms(a) if len(t) > 2 and isinstance(t[2], str))


def found_in_store(a, F):
    """there is a locality hash of that name"""
    k = ('e', 'quarkdb::KeyType::kLocalityHash')
    return any(l[0] == 'eq' and contains_term(l, k) and any(t[0] in ('ret', 'call', 'out') for t in subterms(l)) for l in F.all())


def checked_before(a, e, p):
    """an earlier loop over the same words refuses empty ones"""
    done = {x.val[1] for x in p.events if x.kind == 'loop' and x.info in ('exit', 'zero') and x.n < e.n} - set(e.loops)
    if not e.loops:
        return False
    for x in p.events:
        if x.kind != 'loop' or x.info != 'iterend' or x.val[1] not in done or x.n > e.n:
            continue
        for v, st, en in x.args:
            beg = [b for b in p.events if b.kind == 'loop' and b.info == 'begin' and b.val[1] == x.val[1]]
            b2 = [b for b in p.events if b.kind == 'loop' and b.info == 'begin' and b.val[1] == e.loops[-1]]
            if not beg or not b2:
                continue
            for v2, s2, c2 in b2[0].args:
                if not contains_term(a, c2):
                    continue
                s1 = next((q for w, q, c in beg[0].args if w == v), None)
                c1 = next((c for w, q, c in beg[0].args if w == v), None)
                e2 = [y for y in p.events if y.kind == 'loop' and y.info == 'iterend' and y.val[1] == e.loops[-1]]
                stp = [sub(en2, st2) for y in e2 for w, st2, en2 in y.args if w == v2]
                t = replace(a, c2, c1)
                if s1 == s2 and (not stp or stp[0] == sub(en, st)) and x.facts.entails(ne(size(t), ZERO)):
                    return True
    return False


def emptiness_checked(key, e, p):
    """the name was looked at in a loop that ran, or in each turn of the loop it is used in"""
    return any(x.kind == 'loop' and x.info == 'iterend' and x.n < e.n and x.facts.entails(ne(size(key), ZERO)) for x in p.events)


def replace(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(replace(x, a, b) for x in t)
    return t


# ---------------------------------------------------------------- C04 / S12: what each command does
# command: (operation, words it gets, reply); b2: the words from the second on, up to the end or to the given word
B1, B2, E = ('b', 1), ('b', 2), ('e',)
INT, STR, VEC, OKR, STAT = 'integer', 'string', 'vector', 'ok', 'status'
OPERATION = {
    'FLUSHALL': ('flushall', (), None), 'SET': ('set', (1, 2), None), 'DEL': ('del', (B1, E), INT), 'HSET': ('hset', (1, 2, 3), INT), 'HSETNX': ('hsetnx', (1, 2, 3), INT),
    'HMSET': ('hmset', (1, B2, E), OKR), 'HINCRBY': ('hincrby', (1, 2, 3), INT), 'HINCRBYFLOAT': ('hincrbyfloat', (1, 2, 3), STR), 'HDEL': ('dispatchHDEL', (1, B2, E), 'same'),
    'HCLONE': ('hclone', (1, 2), OKR), 'SADD': ('sadd', (1, B2, E), INT), 'SREM': ('srem', (1, B2, E), INT), 'SMOVE': ('smove', (1, 2, 3), INT),
    'DEQUE_PUSH_FRONT': ('dequePushFront', (1, B2, E), INT), 'DEQUE_PUSH_BACK': ('dequePushBack', (1, B2, E), INT), 'DEQUE_POP_FRONT': ('dequePopFront', (1,), STR),
    'DEQUE_POP_BACK': ('dequePopBack', (1,), STR), 'DEQUE_TRIM_FRONT': ('dequeTrimFront', (1, 2), INT), 'DEQUE_CLEAR': ('dequeTrimFront', (1, '0'), INT), 'CONFIG_SET': ('configSet', (1, 2), None),
    'LHSET': ('dispatchLHSET', (1, 2, 3, 4), 'same'), 'LHDEL': ('dispatchLHDEL', (1, B2, E), 'same'), 'LHLOCDEL': ('lhlocdel', (1, 2, 3), INT), 'LHMSET': ('lhmset', (1, B2, E), OKR),
    'VHSET': ('vhset', (1, 2, 3), INT), 'VHDEL': ('vhdel', (1, B2, E), INT), 'TIMESTAMPED_LEASE_GET': ('lease_get', (1,), None), 'TIMESTAMPED_LEASE_RELEASE': ('lease_release', (1,), OKR),
    'TYPE': ('getType', (1,), STAT), 'GET': ('get', (1,), STR), 'EXISTS': ('exists', (B1, E), INT), 'KEYS': ('keys', (1,), VEC), 'HGET': ('dispatchHGET', (1, 2), 'same'),
    'HEXISTS': ('hexists', (1, 2), 'bool'), 'HKEYS': ('hkeys', (1,), VEC), 'HGETALL': ('hgetall', (1,), VEC), 'HLEN': ('hlen', (1,), INT), 'HVALS': ('hvals', (1,), VEC),
    'SISMEMBER': ('sismember', (1, 2), 'bool'), 'SMEMBERS': ('smembers', (1,), VEC), 'SCARD': ('scard', (1,), INT), 'DEQUE_LEN': ('dequeLen', (1,), INT), 'CONFIG_GET': ('configGet', (1,), STR),
    'CONFIG_GETALL': ('configGetall', (), VEC), 'LHLEN': ('lhlen', (1,), INT), 'VHGETALL': ('vhgetall', (1,), 'versionedVector'), 'VHLEN': ('vhlen', (1,), INT),
}
HELPERS = {'dispatchHGET': ('hget', 2, STR, True), 'dispatchLHGET': ('lhget', 3, STR, True), 'dispatchLHSET': ('lhset', 4, INT, False), 'dispatchHDEL': ('hdel', 3, INT, False), 'dispatchLHDEL': ('lhdel', 3, INT, False)}


def parts(v):
    """name and arguments of what made a reply"""
    if v is None:
        return '', ()
    if v[0] == 'ret':
        return v[2], v[4] if len(v) > 4 else ()
    if v[0] == 'call':
        return v[1], v[2:]
    return '', ()


def st_ok(st):
    return ne(('call', 'rocksdb::Status::ok', st), ZERO)


def st_missing(st):
    return ne(('call', 'rocksdb::Status::IsNotFound', st), ZERO)


def given(w, req):
    c = Engine.project(req, CONTENTS)
    if w == E:
        return ('call', 'end', c)
    if isinstance(w, tuple):
        return add(('call', 'begin', c), C(w[1]))
    if isinstance(w, str):
        return ('s', w)
    return ('call', '[]', c, C(w))


@rule('C04', 'operations', 'each command performs its own operation on its own words, and replies what came of it')
def c04_operations(cx):
    for h, i in ((cx.fn(RD + 'dispatchRead'), 1), (cx.fn(RD + 'dispatchWrite'), 1)):
        m = served(cx, h, i)
        for c, (op, words, reply) in OPERATION.items():
            if c not in m:
                continue
            n = 0
            for p in m[c]:
                if p.outcome != 'return':
                    continue
                s = short(h['name'])
                es = p.calls('~(StateMachine|RedisDispatcher)::(?!errArgs)\\w+$')
                es = [e for e in es if not match(e.name, ('~::(errArgs|getRequestCounter|RedisDispatcher)$',)) and '::StateMachine::' in e.name or match(e.name, ('~RedisDispatcher::dispatch\\w+$',))]
                if not es:
                    continue
                n += 1
                e = es[0]
                want = tuple(given(w, P(h, i)) for w in words)
                cx.ob(len(es) == 1 and e.name.split('::')[-1] == op and e.args[1:1 + len(want)] == want, s, '%s performs its operation on its words' % c, e.where(), p)
                if len(es) == 1:
                    check_reply(cx, s, c, p, e, reply, 1 + len(want))
            cx.ob(n > 0, short(h['name']), '%s performs its operation' % c, h['file'])
    for nm, (op, k, reply, null) in HELPERS.items():
        f = cx.fn(RD + nm)
        n = 0
        for p in cx.paths(f, opaque=OPQ):
            if p.outcome != 'return':
                continue
            es = p.calls('~StateMachine::\\w+$')
            n += 1
            cx.ob(len(es) == 1 and es[0].name.endswith('::' + op) and es[0].args[1:1 + k] == tuple(P(f, j) for j in range(1, 1 + k)), nm, 'performs its operation on its words', f['file'], p)
            if len(es) == 1:
                check_reply(cx, nm, nm, p, es[0], reply, 1 + k)
        cx.ob(n >= 2, nm, 'performs its operation')


def check_reply(cx, s, c, p, e, reply, k):
    st = result(e)
    nm, a = parts(p.val)
    nm = nm.split('::')[-1]
    g = cx.p.fn.get(e.key)
    F = p.facts
    if reply == 'same':
        cx.ob(p.val == st, s, '%s replies what came of it' % c, e.where(), p)
        return
    if g is None or g['ret'] != 'rocksdb::Status':
        cx.ob(nm == reply and a and a[0] == outv(e, k), s, '%s replies what came of it' % c, e.where(), p)
        return
    if F.entails(st_missing(st)):
        cx.ob(nm == 'null' or nm == 'integer' and a[0] == ZERO and reply == 'bool', s, '%s replies that there is nothing' % c, e.where(), p)
    elif nm == 'fromStatus':
        cx.ob(st in a and (reply is None or F.entails(tneg(st_ok(st)))), s, '%s replies a failure only when it failed' % c, e.where(), p)
    else:
        good = F.entails(st_ok(st)) and reply is not None or reply is None and c == 'TIMESTAMPED_LEASE_GET' and F.entails(st_ok(st))
        cx.ob(good, s, '%s replies success only when it succeeded' % c, e.where(), p)
        out = outv(e, k)
        if reply == 'bool':
            cx.ob(nm == 'integer' and a[0] == C(1), s, '%s replies what came of it' % c, e.where(), p)
        elif reply in (INT, STR, VEC):
            cx.ob(nm == reply and contains_term(a[0], out), s, '%s replies what came of it' % c, e.where(), p)
        elif reply == 'versionedVector':
            cx.ob(nm == reply and a[0] == outv(e, k + 1) and a[1] == out, s, '%s replies what came of it' % c, e.where(), p)
        elif reply == OKR:
            cx.ob(nm == OKR, s, '%s replies what came of it' % c, e.where(), p)


B3 = ('b', 3)
COMPOSITE = {
    'LHGET': [[('dispatchLHGET', (1, 2, ''))], [('dispatchLHGET', (1, 2, 3))]],
    'LHGET_WITH_FALLBACK': [[('dispatchLHGET', (1, 2, ''))], [('dispatchLHGET', (1, 2, 3))], [('dispatchLHGET', (1, 2, '')), ('dispatchHGET', (3, 2))], [('dispatchLHGET', (1, 2, 3)), ('dispatchHGET', (4, 2))]],
    'LHSET_AND_DEL_FALLBACK': [[('hget', (5, 2))], [('hget', (5, 2)), ('lhset', (1, 2, 3, 4))], [('hget', (5, 2)), ('lhset', (1, 2, 3, 4)), ('hdel', (5, B2, B3))]],
    'LHDEL_WITH_FALLBACK': [[('lhdel', (1, B2, B3))], [('lhdel', (1, B2, B3)), ('dispatchHDEL', (3, B2, B3))]],
    'CONVERT_HASH_FIELD_TO_LHASH': [[('lhget', (3, 4, 5))], [('lhget', (3, 4, 5)), ('hget', (1, 2))], [('lhget', (3, 4, 5)), ('hget', (1, 2)), ('lhset', (3, 4, 5))],
                                    [('lhget', (3, 4, 5)), ('hget', (1, 2)), ('lhset', (3, 4, 5)), ('hdel', (1, B2, B3))]],
}


@rule('C04', 'composite', 'a command made of several operations performs them all, on its own words')
def c04_composite(cx):
    for h, i in ((cx.fn(RD + 'dispatchRead'), 1), (cx.fn(RD + 'dispatchWrite'), 1)):
        m = served(cx, h, i)
        req = P(h, i)
        for c in COMPOSITE:
            if c not in m:
                continue
            seen = set()
            for p in m[c]:
                if p.outcome != 'return':
                    continue
                es = [e for e in p.calls('~(StateMachine|RedisDispatcher)::\\w+$') if '::StateMachine::' in e.name and 'getRequestCounter' not in e.name or match(e.name, ('~RedisDispatcher::dispatch\\w+$',))]
                if not es:
                    continue
                fit = None
                for j, alt in enumerate(COMPOSITE[c]):
                    if len(alt) == len(es) and all(e.name.endswith('::' + o) and all(same_word(e.args[1 + k], w, req, p.facts) for k, w in enumerate(ws)) for e, (o, ws) in zip(es, alt)):
                        fit = j
                seen.add(fit)
                cx.ob(fit is not None, c, 'performs its operations on its words', h['file'], p)
                r = [result(e) for e in es]
                if c in ('LHGET',):
                    cx.ob(p.val == r[0], c, 'replies what came of it', h['file'], p)
                if c == 'LHGET_WITH_FALLBACK':
                    eqn = [l for l in p.facts.all() if contains_term(l, r[0]) and any(is_call(t, '~Formatter::null$') or t[0] == 'ret' and t[2].endswith('::null') for t in subterms(l) if len(t) > 1)]
                    cx.ob(p.val == r[-1] and len(eqn) == 1 and (eqn[0][0] == 'ne') == (len(r) == 1), c, 'looks elsewhere exactly when nothing was found', h['file'], p)
                F = p.facts
                nm, a = parts(p.val)
                nm = nm.split('::')[-1]
                ok = [F.entails(st_ok(x)) for x in r]
                bad = [F.entails(tneg(st_ok(x))) for x in r]
                failed = nm == 'fromStatus' and r[-1] in a and bad[-1]
                if c == 'LHSET_AND_DEL_FALLBACK':
                    gone = F.entails(st_missing(r[0]))
                    if len(es) == 1:
                        cx.ob(failed and F.entails(tneg(st_missing(r[0]))), c, 'refuses before anything is changed only if the fallback cannot be looked at', h['file'], p)
                    elif len(es) == 2:
                        cx.ob(failed or ok[1] and (gone or bad[0]) and nm == 'integer' and contains_term(a[0], outv(es[1], 5)), c, 'replies what came of setting', h['file'], p)
                        cx.ob(ok[0] or gone, c, 'changes nothing if the fallback cannot be looked at', h['file'], p)
                    else:
                        cx.ob(ok[0] and ok[1], c, 'takes the field from the fallback only once it was set', h['file'], p)
                        cx.ob(failed or ok[2] and nm == 'integer' and contains_term(a[0], outv(es[1], 5)), c, 'replies what came of setting', h['file'], p)
                if c == 'LHDEL_WITH_FALLBACK':
                    out = outv(es[0], 4)
                    if len(es) == 2:
                        cx.ob(p.val == r[1] and ok[0] and F.entails(eq(out, ZERO)), c, 'looks elsewhere only when nothing was removed', h['file'], p)
                    else:
                        cx.ob(failed or ok[0] and F.entails(ne(out, ZERO)) and nm == 'integer' and a[0] == out, c, 'replies what was removed', h['file'], p)
                if c.startswith('CONVERT'):
                    if len(es) == 1:
                        cx.ob(nm == 'err' and F.entails(st_ok(r[0])), c, 'refuses only if the destination is taken', h['file'], p)
                        continue
                    cx.ob(F.entails(tneg(st_ok(r[0]))), c, 'never overwrites the destination', h['file'], p)
                    if len(es) == 2:
                        cx.ob(nm == 'fromStatus' and r[1] in a and F.entails(tneg(st_ok(r[1]))), c, 'fails if there is nothing to move', h['file'], p)
                        continue
                    cx.ob(F.entails(st_ok(r[1])) and es[2].args[4] == outv(es[1], 3), c, 'moves the value it found', h['file'], p)
                    if len(es) == 3:
                        cx.ob(nm == 'fromStatus' and r[2] in a and F.entails(tneg(st_ok(r[2]))), c, 'fails if it cannot set the destination', h['file'], p)
                        continue
                    cx.ob(nm == 'ok' and F.entails(st_ok(r[2])) and F.entails(st_ok(r[3])) and F.entails(eq(outv(es[3], 4), C(1))), c, 'succeeds only when the value was moved', h['file'], p)
            cx.ob(len(seen - {None}) == len(COMPOSITE[c]), c, 'performs its operations', h['file'])
    h = cx.fn(RD + 'dispatchWrite')
    n = 0
    for p in served(cx, h, 1)['HINCRBYMULTI']:
        if p.outcome != 'return':
            continue
        for e in p.calls('~StateMachine::hincrby$'):
            n += 1
            cont = Engine.project(P(h, 1), CONTENTS)
            key = e.args[1]
            ok_ = is_call(key, '[]') and key[2] == cont
            ix = key[3] if ok_ else None
            r = loop_range(p, e, ix) if ok_ else None
            cx.ob(ok_ and e.args[2] == ('call', '[]', cont, add(ix, C(1))) and e.args[3] == ('call', '[]', cont, add(ix, C(2))), 'HINCRBYMULTI', 'increments field after field', e.where(), p)
            cx.ob(r is not None and r[0] == C(1) and r[1] == 3 and not r[3], 'HINCRBYMULTI', 'goes through all its words', e.where(), p)
    cx.ob(n > 0, 'HINCRBYMULTI', 'increments')


def same_word(v, w, req, F):
    g = given(w, req)
    if v == g:
        return True
    # counted from the end
    if isinstance(w, int) and is_call(v, '[]') and v[2] == Engine.project(req, CONTENTS):
        return F.entails(eq(v[3], C(w)))
    return False
