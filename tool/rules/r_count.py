"""U04: admission and shutdown; U06: statistics"""
from qdb.common import *
from qdb.rule import rule

Q = 'quarkdb::'
IT, IR, CL = Q + 'InFlightTracker::', Q + 'InFlightRegistration::', Q + 'CoreLocalArray::'
ACC, VAL = IT + 'acceptingRequests', Q + 'AlignedAtomicInt64_t::value'
VOL = (ACC, VAL)
SH = Q + 'Shard::'
ST, SA, RC, HS = Q + 'Statistics::', Q + 'StatAggregator::', Q + 'RequestCounter::', Q + 'HistoricalStatistics::'


def atomic_fields(cx, names, site):
    for n in names:
        cls = n.rsplit('::', 1)[0]
        r = cx.p.rec.get(cls)
        cx.need(r, cls)
        t = [f['t'] for f in r['fields'] if f['n'] == n]
        cx.ob(bool(t) and t[0].startswith('std::atomic<'), site, '%s is read and changed by several threads' % n.split('::')[-1], r['file'])


def plain_updates(cx, names):
    """accesses that read and write such a counter in two steps, or with a weaker order: [(function, node, what)]"""
    out = []
    for f in cx.p.fn.values():
        for x in walk(f['body']):
            if x.get('k') != 'call' or not isinstance(x.get('o'), dict):
                continue
            o = x['o']
            while o.get('k') in ('cast', 'copy'):
                o = o.get('e', {})
            if o.get('k') == 'mem' and o.get('f') in names:
                what = x.get('f', '').split('::')[-1]
                out.append((f, x, what))
    return out


def deltas(p):
    """net change of every in-flight slot: {location: [amount per write]}"""
    out = {}
    for e in p.events:
        if e.kind == 'write' and last_field(e.loc) == VAL:
            hs = [(t, c) for t, c in (e.val[2] if e.val[:1] == ('lin',) else ()) if t[:1] == ('hav',) and t[2] == e.loc and c == 1]
            d = sub(e.val, hs[0][0]) if hs else None
            out.setdefault(e.loc, []).append(d[1] if d is not None and is_num(d) else None)
    return out


@rule('U04', 'admission', 'a request is admitted only if it was counted before the tracker was found open')
def u04_up(cx):
    atomic_fields(cx, VOL, IT)
    f = cx.fn(IT + 'up')
    s = f['name']
    given = refused = 0
    for p in returns(cx.paths(f, volatile=VOL, pure=(CL + 'getCoreIndex',), reads=True)):
        i = ('call', CL + 'getCoreIndex')
        F, v = p.facts, p.val
        d = deltas(p)
        flat_ = [x for l in d.values() for x in l]
        if not cx.ob(None not in flat_, s, 'counts in steps of a known size', None, p):
            continue
        net = {l: sum(x) for l, x in d.items()}
        if F.entails(lt(v, ZERO)):
            refused += 1
            cx.ob(all(x == 0 for x in net.values()), s, 'a refused request leaves the count unchanged', None, p)
            continue
        given += 1
        cx.ob(v[:2] == i, s, 'tells which slot counts the request', None, p)
        cx.ob(sorted(net.values()) == [1], s, 'an admitted request is counted once', None, p)
        cx.ob(all(v in subterms(l) for l in net), s, 'counts in the slot it tells', None, p)
        w = [k for k, e in enumerate(p.events) if e.kind == 'write' and last_field(e.loc) == VAL]
        after = [e for e in p.events[max(w or [0]):] if e.kind == 'read' and last_field(e.loc) == ACC]
        # the value read after counting is the last one the location took
        cx.ob(bool(w) and bool(after) and F.entails(ne(p.final(thisloc(ACC)), ZERO)), s, 'looks whether requests are accepted after counting', None, p)
    cx.ob(given >= 1 and refused >= 1, s, 'admits and refuses')
    for g, x, what in plain_updates(cx, VOL):
        w = '%s:%s' % (g['file'], x['l'])
        n = len([a for a in x.get('a', ()) if isinstance(a, dict) and 'memory_order' in str(a.get('t', '')) + str(a.get('n', '')) + str(a.get('f', ''))])
        cx.ob(n == 0, g['name'], 'all threads agree on the order of admissions', w)
        if what in ('operator=', 'store', 'exchange'):
            cx.ob(x['o'].get('f') == ACC, g['name'], 'the count changes in atomic steps', w)


@rule('U04', 'release', 'a release takes one from the slot it was counted in; shutdown waits for zero over all slots')
def u04_down(cx):
    f = cx.fn(IT + 'down')
    i = P(f, 0)
    n = 0
    for p in cx.paths(f, volatile=VOL):
        d = deltas(p)
        n += 1
        cx.ob(len(d) == 1 and list(d.values())[0] == [-1], f['name'], 'takes one', None, p)
        cx.ob(all(i in subterms(l) for l in d), f['name'], 'takes it from that slot', None, p)
    f = cx.fn(IT + 'setAcceptingRequests')
    for p in cx.paths(f):
        w = p.writes(ACC)
        cx.ob(len(w) == 1 and w[0].val == P(f, 0) and not deltas(p), f['name'], 'opens or closes', None, p)
    f = cx.fn(IT + 'isAcceptingRequests')
    for p, r, F in bool_cases(cx.paths(f)):
        cx.ob(F.entails(ne(this(ACC), ZERO)) if r else F.entails(eq(this(ACC), ZERO)), f['name'], 'tells whether it is open', None, p)
    for w in writers(cx, ACC):
        cx.ob(w['name'] in (IT + 'setAcceptingRequests', IT + 'InFlightTracker'), w['name'], 'only setAcceptingRequests opens or closes', w['file'])
    for g, x, what in plain_updates(cx, (VAL,)):
        cx.ob(g['name'].startswith(IT), g['name'], 'only the tracker counts', '%s:%s' % (g['file'], x['l']))
    f = cx.fn(IT + 'getInFlight')
    tot = 0
    for p in returns(cx.paths(f, pure=(CL + 'size', CL + 'accessAtCore'))):
        cnt = ('call', CL + 'size', this(IT + 'inFlightArr'))
        if zero_loops(p):
            cx.ob(is_zero(p.val), f['name'], 'sums the slots', None, p)
            continue
        fo = folds(p, p.val)
        if not cx.ob(fo is not None, f['name'], 'sums the slots', None, p):
            continue
        entry, cur, end, lid, G = fo
        step = sub(end, cur)
        ev = [e for e in p.calls(CL + 'accessAtCore')]
        cx.ob(is_zero(entry) and len(ev) == 1 and any(step == x for x in subterms(step)) and ev[0].args[0] in subterms(step) and step[:1] == ('init',) and last_field(step[1]) == VAL, f['name'], 'sums the slots', None, p)
        cx.ob(bool(ev) and covers(p, ev[0], ev[0].args[0], ZERO, cnt), f['name'], 'visits every slot', None, p)
        tot += 1
    cx.ob(tot >= 1, f['name'], 'sums the slots')
    f = cx.fn(IT + 'spinUntilNoRequestsInFlight')
    n = 0
    for p in returns(cx.paths(f, opaque=(IT + 'getInFlight',))):
        c = p.calls(IT + 'getInFlight')
        n += 1
        done = bool(c) and p.facts.entails(eq(c[-1].ret, ZERO))
        if not done:
            for x in p.events:
                if x.kind == 'loop' and x.info == 'exit':
                    done = done or any(p.facts.entails(eq(b, ZERO)) and all(y in [z.ret for z in c] for y in stems(p, b)) for v, a, b in x.args)
        cx.ob(done, f['name'], 'returns only when nothing is in flight', None, p)
        cx.ob(p.facts.entails(eq(this(ACC), ZERO)), f['name'], 'waits only once closed', None, p)
    cx.ob(n >= 1, f['name'], 'waits')


@rule('U04', 'registration', 'a registration is released exactly once, and only if it was admitted')
def u04_reg(cx):
    ops = (IT + 'up', IT + 'down')
    idx, tr = IR + 'coreIdx', IR + 'inFlightTracker'
    f = cx.fn(IR + 'InFlightRegistration')
    for p in cx.paths(f, opaque=ops):
        u = p.calls(IT + 'up')
        cx.ob(len(u) == 1 and p.final(thisloc(idx)) == u[0].ret and not p.calls(IT + 'down'), f['name'], 'asks for admission once', None, p)
    f = cx.fn(IR + 'ok')
    for p, r, F in bool_cases(cx.paths(f)):
        cx.ob(F.entails(ge(this(idx), ZERO)) if r else F.entails(lt(this(idx), ZERO)), f['name'], 'tells whether it was admitted', None, p)
    f = [g for k, g in cx.p.fn.items() if k.startswith(IR + '<dtor>')]
    cx.need(f, IR + '<dtor>')
    adm = 0
    for p in cx.paths(f[0], opaque=ops):
        d = p.calls(IT + 'down')
        for F in p.facts.with_(ge(this(idx), ZERO)):
            adm += 1
            cx.ob(len(d) == 1 and d[0].args == (this(idx),), IR + '~', 'releases an admission once', None, p)
        for F in p.facts.with_(lt(this(idx), ZERO)):
            cx.ob(not d, IR + '~', 'releases nothing that was not admitted', None, p)
        cx.ob(not p.calls(IT + 'up'), IR + '~', 'does not ask again', None, p)
    cx.ob(adm >= 1, IR + '~', 'releases')
    for w in writers(cx, idx):
        cx.ob(w['name'] == IR + 'InFlightRegistration', w['name'], 'only admission sets the slot', w['file'])
    for k, g in cx.p.fn.items():
        for x in walk(g['body']):
            if x.get('k') == 'copy' and x.get('c') == Q + 'InFlightRegistration':
                cx.ob(False, g['name'], 'a registration is not copied', '%s:%s' % (g['file'], x['l']))
            if x.get('k') == 'new' and 'InFlightRegistration' in str(x.get('t')):
                cx.ob(False, g['name'], 'a registration lives in a scope', '%s:%s' % (g['file'], x['l']))
    for g, x in callers(cx, IT + 'up', IT + 'down'):
        cx.ob(g['name'].startswith(IR), g['name'], 'admission goes through a registration', '%s:%s' % (g['file'], x['l']))


def admitted(p, k, tracker):
    """an admission by tracker is in force at event k"""
    open_ = False
    for e in p.events[:k]:
        if e.kind == 'call' and e.name == IT + 'up' and last_field(e.objloc) == tracker:
            open_ = e.ret if p.events[k].facts.entails(ge(e.ret, ZERO)) else open_
        elif e.kind == 'call' and e.name == IT + 'down' and e.args[:1] == (open_,):
            open_ = False
    return open_ is not False


@rule('U04', 'shard', 'a shard uses its backend only for admitted requests, and takes it away only when none are left')
def u04_shard(cx):
    TRK = SH + 'inFlightTracker'
    back = {SH + x for x in ('dispatcher', 'stateMachine', 'raftGroup', 'standaloneGroup')}
    own = {SH + x for x in ('attach', 'detach', 'start', 'spinup', 'spindown', 'getRaftGroup', 'Shard', '~Shard', 'stopAcceptingRequests', 'monitors')}
    ops = (IT + 'up', IT + 'down', IT + 'setAcceptingRequests', IT + 'spinUntilNoRequestsInFlight', IT + 'getInFlight',
           '~CommandMonitor::', '~ShardDirectory::', '~RaftGroup::', '~StandaloneGroup::', '~Formatter::', '~Connection::', '~NodeHealth::', '~RequestCounter::', '~ResilveringEventID::')
    uses = 0
    for f in cx.p.methods(Q + 'Shard'):
        if f['name'] in own or '<dtor>' in f['key']:
            continue
        touched = False
        for p in cx.paths(f, opaque=ops, reads=True):
            quiet = False
            for k, e in enumerate(p.events):
                if e.kind == 'call' and e.name == IT + 'spinUntilNoRequestsInFlight':
                    quiet = True
                elif e.kind == 'call' and e.name == IT + 'setAcceptingRequests' and e.args != (FALSE,):
                    quiet = False
                elif e.kind == 'read' and last_field(e.loc) in back and not any((e.fn or '').startswith(o + '(') for o in own):
                    uses += 1
                    cx.ob(quiet or admitted(p, k, TRK), f['name'], 'uses the backend only while admitted', e.where(), p)
            ups = [e for e in p.calls(IT + 'up') if not p.facts.refutes(ge(e.ret, ZERO)) and p.facts.entails(ge(e.ret, ZERO))]
            if p.outcome == 'return':
                for e in ups:
                    cx.ob(len([d for d in p.calls(IT + 'down') if d.args == (e.ret,)]) == 1, f['name'], 'releases the admission', e.where(), p)
    cx.ob(uses >= 8, SH, 'requests use the backend')
    f = cx.fn(SH + 'stopAcceptingRequests')
    for p in returns(cx.paths(f, opaque=ops)):
        c = [(e.name.split('::')[-1], e.args) for e in p.events if e.kind == 'call' and e.name.startswith(IT) and not e.name.endswith('getInFlight')]
        cx.ob(c == [('setAcceptingRequests', (FALSE,)), ('spinUntilNoRequestsInFlight', ())], f['name'], 'closes, then waits', None, p)
    f = cx.fn(SH + 'detach')
    for p in returns(cx.paths(f, opaque=ops)):
        w = [k for k, e in enumerate(p.events) if e.kind == 'write' and last_field(e.loc) in back]
        spin = [k for k, e in enumerate(p.events) if e.kind == 'call' and e.name == IT + 'spinUntilNoRequestsInFlight']
        shut = [k for k, e in enumerate(p.events) if e.kind == 'call' and e.name == IT + 'setAcceptingRequests' and e.args == (FALSE,)]
        if w:
            cx.ob(bool(spin) and bool(shut) and shut[0] < spin[0] < w[0], f['name'], 'closes and waits before the backend goes away', None, p)
        else:
            t = [x for l in p.facts.all() for x in subterms(l) if x[:1] == ('init',) and last_field(x[1]) == ACC]
            cx.ob(any(p.facts.entails(eq(x, ZERO)) for x in t), f['name'], 'leaves the backend alone only if already closed', None, p)
    f = cx.fn(SH + 'attach')
    n = 0
    for p in returns(cx.paths(f, opaque=ops)):
        w = [k for k, e in enumerate(p.events) if e.kind == 'write' and last_field(e.loc) in back]
        op = [k for k, e in enumerate(p.events) if e.kind == 'call' and e.name == IT + 'setAcceptingRequests']
        n += 1
        cx.ob(len(op) == 1 and p.events[op[0]].args == (TRUE,) and all(k < op[0] for k in w) and len(w) >= 3, f['name'], 'opens only once the backend is there', None, p)
    cx.ob(n >= 1, f['name'], 'attaches')
    d = [g for k, g in cx.p.fn.items() if k.startswith(SH + '<dtor>')]
    cx.need(d, SH + '~Shard')
    for p in cx.paths(d[0], opaque=ops + (SH + 'detach',)):
        cx.ob(len(p.calls(SH + 'detach')) >= 1, SH + '~Shard', 'waits for the requests in flight', None, p)


@rule('U04', 'server', 'connection threads are closed to requests and waited for before the node goes away')
def u04_server(cx):
    ops = (IT + 'up', IT + 'down', IT + 'spinUntilNoRequestsInFlight', IT + 'setAcceptingRequests', IT + 'getInFlight', IT + 'isAcceptingRequests', '~Connection::', '~Link::', '~AssistedThread::')
    d = [g for k, g in cx.p.fn.items() if k.startswith(Q + 'AsioPoller::<dtor>')]
    cx.need(d, 'AsioPoller')
    for p in cx.paths(d[0], opaque=ops):
        shut = [k for k, e in enumerate(p.events) if e.kind == 'call' and e.name == IT + 'setAcceptingRequests' and e.args == (FALSE,)]
        join = [(k, e) for k, e in enumerate(p.events) if e.kind == 'call' and e.name.endswith('::join')]
        clear = [k for k, e in enumerate(p.events) if e.kind == 'call' and e.name.endswith('::clear') and last_field(e.objloc) == Q + 'AsioPoller::mEntries']
        cx.ob(bool(shut), d[0]['name'], 'closes to requests', None, p)
        cx.ob(bool(clear) or True, d[0]['name'], 'drops connections', None, p)
        if join:
            cx.ob(shut[:1] < [join[0][0]] and all(k > join[-1][0] for k in clear), d[0]['name'], 'waits for its threads before dropping connections', None, p)
            pool = this(Q + 'AsioPoller::mThreadPool')
            rl = [x for x in p.events if x.kind == 'loop' and x.obj == pool]
            ix = [x for x in p.events if x.kind == 'index' and x.loops and last_field(x.loc[1]) == Q + 'AsioPoller::mThreadPool']
            cx.ob(bool(rl) or any(covers(p, x, x.loc[2], ZERO, size(pool)) and any(e.objloc == x.loc for _, e in join) for x in ix), d[0]['name'], 'waits for every thread', None, p)
        else:
            cx.ob(bool(zero_loops(p)), d[0]['name'], 'waits for its threads', None, p)
    for f in cx.p.fns(Q + 'XrdQuarkDB::shutdownMonitor'):
        for p in cx.paths(f, opaque=ops):
            dl = [k for k, e in enumerate(p.events) if e.kind == 'delete']
            spin = [k for k, e in enumerate(p.events) if e.kind == 'call' and e.name == IT + 'spinUntilNoRequestsInFlight']
            if dl:
                cx.ob(bool(spin) and spin[0] < dl[0], f['name'], 'waits before the node goes away', None, p)


# ---------------------------------------------------------------- statistics

def counters(cx):
    r = cx.p.rec.get(Q + 'Statistics')
    cx.need(r, 'Statistics')
    return [f['n'] for f in r['fields']]


def other(f, fld):
    return Engine.project(P(f, 0), fld)


@rule('U06', 'algebra', 'adding, subtracting, copying and starting treat every counter alike')
def u06_ops(cx):
    C4 = counters(cx)
    cx.ob(len(C4) >= 4, ST, 'has its counters')
    atomic_fields(cx, C4, ST)
    seen = set()
    for f in cx.p.methods(Q + 'Statistics'):
        what = f['name'].split('::')[-1]
        for p in cx.paths(f):
            for c in C4:
                v = p.final(thisloc(c))
                if what == 'operator+=':
                    want = add(this(c), other(f, c))
                elif what == 'operator-=':
                    want = sub(this(c), other(f, c))
                elif what == 'operator=' or what == 'Statistics' and f['params']:
                    want = other(f, c)
                elif what == 'Statistics':
                    want = ZERO
                else:
                    want = this(c)
                seen.add((what, len(f['params'])))
                cx.ob(p.facts.eqv(v, want), f['name'], 'treats %s right' % c.split('::')[-1], None, p)
            if what == 'serialize':
                v = p.val
                for i, c in enumerate(('reads', 'writes', 'txread', 'txreadwrite')):
                    x = Engine.index(v, C(i)) if hasattr(Engine, 'index') else None
                    cx.ob(repr(('cat', (('s', c.upper() + ' '), ('call', 'std::to_string', this(ST + c))))) in repr(v), f['name'], 'shows %s' % c, None, p)
    cx.ob(len(seen) >= 5, ST, 'has its operations')
    for g, x, what in plain_updates(cx, set(C4)):
        if what in ('operator=', 'store', 'exchange'):
            cx.ob(g['name'] == ST + 'operator=', g['name'], 'a shared counter changes in atomic steps', '%s:%s' % (g['file'], x['l']))
    f = cx.fn(Q + 'TimestampedStatistics::TimestampedStatistics')
    for p in cx.paths(f):
        v = p.final(thisloc(Q + 'TimestampedStatistics::stats'))
        cx.ob(v == P(f, 1) or all(Engine.project(v, c) == other({'params': f['params'], 'x': 0}, c) or Engine.project(v, c) == Engine.project(P(f, 1), c) for c in C4), f['name'], 'keeps every counter', None, p)
        cx.ob(p.final(thisloc(Q + 'TimestampedStatistics::timepoint')) == P(f, 0), f['name'], 'keeps the time', None, p)


CT = Q + 'CommandType::'


@rule('U06', 'account', 'a request counts once under its own class, a transaction once in addition to its requests')
def u06_account(cx):
    C4 = counters(cx)
    one = cx.fn(RC + 'account', 2)
    req, stats = P(one, 0), P(one, 1)
    ty = ('.', req, Q + 'RedisRequest::commandType')
    n = {}
    for p in cx.paths(one):
        F = p.facts
        d = {}
        for e in p.events:
            if e.kind == 'write' and last_field(e.loc) in C4:
                cx.ob(stats in subterms(e.loc), one['name'], 'counts where it was told', e.where(), p)
                x = sub(e.val, ('init', e.loc))
                d[last_field(e.loc)] = d.get(last_field(e.loc), 0) + (x[1] if is_num(x) else 99)
        for cls, want in (('READ', {ST + 'reads': 1}), ('WRITE', {ST + 'writes': 1})):
            for G in F.with_(eq(ty, ('e', CT + cls))):
                n[cls] = 1
                cx.ob(d == want, one['name'], 'a %s counts once, as such' % cls.lower(), None, p)
        for G in F.with_(AND(ne(ty, ('e', CT + 'READ')), ne(ty, ('e', CT + 'WRITE')))):
            cx.ob(not d, one['name'], 'anything else is not counted', None, p)
    cx.ob(len(n) == 2, one['name'], 'counts reads and writes')
    ops = (SA + 'getStats',)
    two = cx.fn(RC + 'account', 1, lambda f: 'RedisRequest' in f['key'])
    m = 0
    for p in cx.paths(two, opaque=ops + (RC + 'account',)) if False else cx.paths(two, opaque=ops):
        g = p.calls(SA + 'getStats')
        cx.ob(len(g) >= 1 and g[0].objloc is not None and last_field(g[0].objloc) == RC + 'aggregator', two['name'], "counts in this thread's statistics", None, p)
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) in C4]
        t2 = ('.', P(two, 0), Q + 'RedisRequest::commandType')
        known = [c for c in ('READ', 'WRITE') if p.facts.entails(eq(t2, ('e', CT + c)))]
        cx.ob(len(w) == len(known), two['name'], 'counts the request once', None, p)
        for e in w:
            m += 1
            cx.ob(any(x.ret in subterms(e.loc) for x in g) and last_field(e.loc) == ST + {'READ': 'reads', 'WRITE': 'writes'}[known[0]] and e.val == add(('init', e.loc), C(1)), two['name'], "counts in this thread's statistics", e.where(), p)
    cx.ob(m >= 2, two['name'], 'counts')
    tx = cx.fn(RC + 'account', 1, lambda f: 'Transaction' in f['key'])
    kinds = set()
    WR = Q + 'Transaction::containsWrites'
    for p in cx.paths(tx, opaque=ops, pure=(WR, Q + 'Transaction::size', '~Transaction::operator', '~RedisRequest::getCommandType')):
        has = ('call', WR, P(tx, 0))
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) in (ST + 'txread', ST + 'txreadwrite')]
        kind = 'txreadwrite' if p.facts.entails(ne(has, ZERO)) else 'txread' if p.facts.entails(eq(has, ZERO)) else None
        kinds.add(kind)
        cx.ob(kind is not None and len(w) == 1 and last_field(w[0].loc) == ST + str(kind) and w[0].val == add(('init', w[0].loc), C(1)) and not w[0].loops, tx['name'], 'the transaction counts once under its own kind', None, p)
        sz = ('call', Q + 'Transaction::size', P(tx, 0))
        if zero_loops(p):
            cx.ob(p.facts.entails(le(sz, ZERO)), tx['name'], 'counts each of its requests', None, p)
            continue
        calls = [e for e in p.calls(RC + 'account')]
        cx.ob(len(calls) == 1, tx['name'], 'counts each of its requests', None, p)
        for e in calls:
            ok = False
            for x in subterms(e.args[0]):
                if x[:1] == ('call',) and 'operator[]' in str(x[1]) or x[:2] == ('call', '[]'):
                    ok = ok or covers(p, e, x[-1], ZERO, sz)
            cx.ob(ok or any(x.kind == 'loop' and x.obj is not None and x.val[1] in e.loops for x in p.events), tx['name'], 'counts each of its requests', e.where(), p)
            cx.ob(len(e.args) == 1 or any(e.args[1] == g.ret for g in p.calls(SA + 'getStats')), tx['name'], "counts in this thread's statistics", e.where(), p)
    cx.ob(kinds == {'txread', 'txreadwrite'}, tx['name'], 'tells read-only from read-write')


@rule('U06', 'served', 'every served request is counted exactly once')
def u06_served(cx):
    n = 0
    D = Q + 'RedisDispatcher::'
    for f in {g['key']: g for g, _ in callers(cx, RC + 'account')}.values():
        if f['name'].startswith(RC):
            continue
        cx.ob(f['name'].startswith(D), f['name'], 'only the store counts requests', f['file'])
        for p in returns(cx.paths(f, opaque=('~RedisDispatcher::dispatch', '~StagingArea::', '~RequestCounter::', '~Publisher::', '~Formatter::', '~ArrayResponseBuilder::'))):
            c = p.calls(RC + 'account')
            n += 1
            cx.ob(len(c) == 1 and not c[0].loops and c[0].arglocs and c[0].arglocs[0] in [('var', q['id'], 0) for q in f['params']] + [('d', P(f, i)) for i in range(len(f['params']))], f['name'], 'what was served is counted once', None, p)
    cx.ob(n >= 2, D, 'requests are counted')
    # every way to run one goes through those
    for leaf in ('dispatchRead', 'dispatchWrite', 'dispatchReadWrite'):
        for g, x in callers(cx, D + leaf):
            cx.ob(g['name'] in (D + 'dispatchReadWrite', D + 'dispatchReadWriteAndCommit') or g['name'] == D + 'dispatchReadOnly' and all(h['name'] == D + 'dispatchRead' for h, _ in callers(cx, D + 'dispatchReadOnly')) or g['name'] == D + 'dispatch' and 'Transaction' in g['key'], g['name'], 'requests run only where they are counted', '%s:%s' % (g['file'], x['l']))


@rule('U06', 'totals', 'totals are the sum over all threads; the difference is to the last time')
def u06_totals(cx):
    C4 = counters(cx)
    f = cx.fn(SA + 'getStats')
    for p in returns(cx.paths(f, opaque=(CL + 'access',))):
        a = p.calls(CL + 'access')
        cx.ob(len(a) == 1 and last_field(a[0].objloc) == SA + 'stats' and p.val == Engine.project(a[0].ret, 'std::pair::first'), f['name'], "gives this thread's own", None, p)
    f = cx.fn(SA + 'getOverallStats')
    n = 0
    for p in returns(cx.paths(f, pure=(CL + 'size', CL + 'accessAtCore'))):
        if zero_loops(p):
            cx.ob(all(is_zero(Engine.project(p.val, c)) for c in C4), f['name'], 'starts from zero', None, p)
            continue
        e = (p.calls(CL + 'accessAtCore') or [None])[0]
        fo = folds(p, p.val)
        if not cx.ob(fo is not None and e is not None, f['name'], 'sums over all threads', None, p):
            continue
        n += 1
        entry, cur, end, lid, G = fo
        cx.ob(covers(p, e, e.args[0], ZERO, ('call', CL + 'size', this(SA + 'stats'))), f['name'], 'visits every thread', None, p)
        for c in C4:
            x = sub(Engine.project(end, c), Engine.project(cur, c))
            cx.ob(is_zero(Engine.project(entry, c)) and x[:1] in (('init',), ('hav',)) and last_field(x[-1]) == c and e.args[0] in subterms(x), f['name'], 'sums ' + c.split('::')[-1], None, p)
    cx.ob(n >= 1, f['name'], 'sums')
    f = cx.fn(SA + 'getOverallStatsSinceLastTime')
    for p in returns(cx.paths(f, opaque=(SA + 'getOverallStats',))):
        # every look sees other values: other threads go on counting
        g = p.calls(SA + 'getOverallStats')
        if not cx.ob(len(g) == 1, f['name'], 'looks once', None, p):
            continue
        total = g[0].ret
        for c in C4:
            now = Engine.project(total, c)
            last = sub(now, Engine.project(p.val, c))
            cx.ob(last[:1] in (('init',), ('hav',)) and last[-1] == ('f', thisloc(SA + 'lastTime'), c), f['name'], 'tells the difference', None, p)
            cx.ob(p.facts.eqv(p.final(('f', thisloc(SA + 'lastTime'), c)), now), f['name'], 'remembers for next time', None, p)
    for g in writers(cx, SA + 'lastTime'):
        cx.ob(g['name'] in (SA + 'getOverallStatsSinceLastTime', SA + 'StatAggregator'), g['name'], 'nobody else forgets what was told', g['file'])
    for g, x in callers(cx, SA + 'getOverallStatsSinceLastTime'):
        cx.ob(g['name'] == RC + 'mainThread', g['name'], 'only one thread takes differences', '%s:%s' % (g['file'], x['l']))
    f = cx.fn(RC + 'getOverallStats')
    for p in returns(cx.paths(f, opaque=(SA + 'getOverallStats',))):
        cx.ob(is_ret(p.val, SA + 'getOverallStats') if False else any(p.val == e.ret for e in p.calls(SA + 'getOverallStats')), f['name'], 'gives the totals', None, p)


@rule('U06', 'history', 'history keeps the newest entries, newest first, up to its limit')
def u06_history(cx):
    st, loc, lim, mtx = this(HS + 'store'), thisloc(HS + 'store'), this(HS + 'retentionLimit'), HS + 'mtx'
    f = cx.fn(HS + 'push')
    n = 0
    for p in returns(cx.paths(f)):
        v = p.final(loc)
        ops_ = []
        while v[:1] == ('mut',):
            ops_.append((v[1].split('::')[-1], v[3]))
            v = v[2]
        ops_.reverse()
        names = [o for o, _ in ops_]
        n += 1
        cx.ob(v == st and names[:1] in (['emplace_front'], ['push_front']) and names[1:] in ([], ['pop_back']), f['name'], 'puts the new entry first and drops only the oldest', None, p)
        if ops_:
            a = ops_[0][1]
            cx.ob(set(a) >= {P(f, 0), P(f, 1)} if len(a) == 2 else all(any(x == y for y in subterms(a)) for x in (P(f, 0), P(f, 1))), f['name'], 'records the entry with its time', None, p)
        put = add(size(st), C(1))
        drop = len(names) == 2
        for G in p.facts.with_(AND(le(size(st), lim), ge(size(st), ZERO))):
            fresh_ = [x for l in G.all() for x in subterms(l) if x[:2] == ('call', 'size') and x[2] != st]
            full = [x for x in fresh_ if x[2][:1] == ('mut',)] or [None]
            if full[0] is not None:
                cx.ob(G.entails(gt(full[0], lim)) if drop else G.entails(le(full[0], lim)), f['name'], 'keeps at most the limit', None, p)
            else:
                cx.ob(G.entails(ge(size(st), lim)) if drop else G.entails(lt(size(st), lim)), f['name'], 'keeps at most the limit', None, p)
    cx.ob(n >= 2, f['name'], 'keeps history')
    for fn in ('push', 'serialize'):
        for p in cx.paths(cx.fn(HS + fn)):
            for e in p.events:
                if e.kind in ('write', 'call') and (e.loc if e.kind == 'write' else e.objloc) == loc:
                    cx.ob(held(e, mtx), HS + fn, 'is kept under its lock', e.where(), p)
    for w in writers(cx, HS + 'retentionLimit'):
        cx.ob(w['name'] == HS + 'HistoricalStatistics', w['name'], 'the limit never changes', w['file'])
    f = cx.fn(RC + 'mainThread')
    m = 0
    for p in cx.paths(f, opaque=(SA + 'getOverallStatsSinceLastTime', HS + 'push', '~ThreadAssistant::', RC + 'toRate')):
        for e in p.calls(HS + 'push'):
            m += 1
            g = [x for x in p.calls(SA + 'getOverallStatsSinceLastTime') if x.loops == e.loops]
            cx.ob(len(g) == 1 and g[0].ret == e.args[0], f['name'], 'records what happened since the last entry', e.where(), p)
        cx.ob(len([x for x in p.calls(SA + 'getOverallStatsSinceLastTime')]) == len(p.calls(HS + 'push')), f['name'], 'every difference taken is recorded', None, p)
    cx.ob(m >= 1, f['name'], 'records history')
