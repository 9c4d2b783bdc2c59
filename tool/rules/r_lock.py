"""Locks across the whole program: U01 (state under its lock), U02 (order)."""
from qdb.common import *
from qdb import locks as L_

Q = 'quarkdb::'
# class -> field -> (mutexes that protect it, further condition)
# A change needs all of the mutexes, a look at it any one of them.
#   'w': only changes are protected (the field is atomic, or read through an
#        atomic operation, but a change has to be one step with a check, a
#        notification or the change of another field)
GUARDS = {
    'AsioPoller': {'mEntries': 'mEntriesMtx', 'mAcceptor4': 'mAcceptorMtx', 'mAcceptor6': 'mAcceptorMtx'},
    'BufferedWriter': {'active': 'mtx', 'bufferedBytes': 'mtx'},
    'CommandMonitor': {'monitors': 'mtx', 'active': 'mtx/w'},
    'ExpirationEventCache': {'mContents': 'mMutex', 'mStoredLeases': 'mMutex'},
    'HistoricalStatistics': {'store': 'mtx'},
    'PendingQueue': {'conn': 'mtx', 'lastIndex': 'mtx', 'pending': 'mtx', 'subscriptionTracker': 'mtx'},
    'RaftBlockedWrites': {'tracker': 'mtx'},
    'RaftCommitTracker': {'commitIndex': 'mtx', 'commitIndexLagging': 'mtx', 'matchIndexes': 'mtx', 'registrations': 'mtx', 'targets': 'mtx', 'quorumSize': 'mtx', 'autoCommitter': 'mtx'},
    'RaftDispatcher': {'lastLaggingWarning': 'raftCommand'},
    'RaftGroup': {n: 'mtx' for n in ('configptr', 'ctptr', 'directorptr', 'dispatcherptr', 'heartbeattrackerptr', 'leaseptr', 'publisherptr', 'replicatorptr', 'stateptr', 'trimmerptr', 'wtptr')},
    'RaftHeartbeatTracker': {'artificialTimeout': 'lastHeartbeatMutex', 'lastHeartbeat': 'lastHeartbeatMutex', 'randomTimeout': 'lastHeartbeatMutex'},
    'RaftJournal': {'commitIndex': 'commitIndexMutex/w', 'members': 'contentMutex+membersMutex', 'membershipEpoch': 'contentMutex+membersMutex/w', 'termOfLastEntry': 'contentMutex', 'votedFor': 'currentTermMutex+votedForMutex', 'currentTerm': 'currentTermMutex/w', 'fsyncPolicy': 'fsyncPolicyMutex/w'},
    'RaftLastContact': {'lastCommunication': 'mtx'},
    'RaftLease': {'quorumSize': 'mtx', 'registrations': 'mtx', 'targets': 'mtx'},
    'RaftReplicaTracker': {'inFlight': 'inFlightMtx'},
    'RaftReplicator': {'snapshot': 'mtx', 'targets': 'mtx'},
    'RaftResilverer': {'status': 'statusMtx'},
    'RaftState': {'term': 'update', 'status': 'update', 'leader': 'update', 'votedFor': 'update', 'leadershipMarker': 'update', 'currentSnapshot': 'update/w'},
    'RaftWriteTracker': {'blockedWrites': 'mtx/w'},
    'StateMachine': {'mExpirationCache': 'mExpirationCacheMutex', 'lastApplied': 'lastAppliedMtx/w'},
    'ClockWrapper': {'fakeTime': 'mtx'},
    'RaftTimeouts': {'gen': 'genMutex', 'dist': 'genMutex'},
    'RaftTrimmer': {'blocks': 'mtx'},
    'ResilveringHistory': {'events': 'mtx'},
    'Shard': {'raftGroup': 'raftGroupMtx/w'},
    'Synchronized': {'contents': 'mtx'},
    'ThreadAssistant': {'terminationCallbacks': 'mtx', 'stopFlag': 'mtx/w'},
    'ThreadSafeMultiMap': {'contents': 'mtx', 'storedEntries': 'mtx'},
    'Timekeeper': {'anchorPoint': 'mtx', 'staticClock': 'mtx'},
    'VersionHandshake': {'version': 'mtx'},
}
# entered while no other thread can reach the object (opening, tearing down,
# before its thread is started); everything called from there on the same
# object belongs to it
EXCLUSIVE = ('RaftJournal::obliterate', 'RaftCommitTracker::reset', 'RaftJournal::simulateDataLoss', 'StateMachine::reset', 'ThreadAssistant::reset', 'Shard::attach', 'Shard::detach', 'Shard::start')
# (field, function): touched without the lock where only one thread can be
ALONE = {
    # the thread is started by the holder of the lock, who joins it before changing the value
    ('RaftCommitTracker::quorumSize', 'RaftCommitTracker::runAutoCommit'),
    # the reader of acknowledgements lives only inside streamUpdates
    ('RaftReplicaTracker::inFlight', 'RaftReplicaTracker::main'),
    # kept only by the owner of a pending queue, under that queue's lock
}


def locks(cx):
    if getattr(cx.p, '_locks', None) is None:
        cx.p._locks = L_.Locks(cx.p, tuple(Q + x for x in EXCLUSIVE))
    return cx.p._locks


def mutexes(cx, cls):
    return [f['n'] for r in cx.p.recbyname.get(Q + cls, ()) for f in r['fields'] if f['t'].startswith('std::') and 'mutex' in f['t']]


def inferred(cx, L, cls, known):
    """for a class whose members are called differently: what most accesses hold"""
    out = {}
    ms = mutexes(cx, cls)
    fs = {f['n'] for r in cx.p.recbyname.get(Q + cls, ()) for f in r['fields']} - set(known) - set(ms)
    for f in fs:
        acc = [a for a in L.access if a.field == f and not a.mine()]
        if not [a for a in acc if a.mode == 'w'] or 'atomic' in cx.p.fieldtype.get(f, ''):
            continue
        for m in ms:
            n = sum(1 for a in acc if a.has(m))
            if n >= 2 and n * 3 >= len(acc) * 2:
                out[f] = ((m,), False)
    return out


def guards(cx, L):
    out = {}
    for cls, fs in GUARDS.items():
        recs = cx.p.recbyname.get(Q + cls)
        if not recs:
            continue
        have = {f['n'] for r in recs for f in r['fields']} | {g for g in cx.p.glob if g.startswith(Q + cls + '::')}
        lost = False
        for f, g in fs.items():
            only_w = g.endswith('/w')
            ms = tuple(Q + cls + '::' + m for m in g.split('/')[0].split('+'))
            if Q + cls + '::' + f not in have or not [m for m in ms if m in have]:
                lost = True
                continue
            out[Q + cls + '::' + f] = (tuple(m for m in ms if m in have), only_w)
        if lost:
            out.update(inferred(cx, L, cls, out))
    return out


def within(cx, L, fn, name, seen=()):
    """fn is the named function, or a helper called from nowhere else"""
    if fn['name'] == Q + name:
        return True
    if fn['key'] in seen:
        return True
    sites = L.called.get(fn['key'], [])
    return bool(sites) and fn.get('acc') != 'public' and all(within(cx, L, s.fn, name, seen + (fn['key'],)) for s in sites)


@rule('U01', 'lockset', 'every access of a field several threads share happens while its lock is held')
def u01_lockset(cx):
    L = locks(cx)
    G = guards(cx, L)
    cx.need(len(G) > 40, 'the classes that guard state with a lock')
    seen = set()
    for a in L.access:
        g = G.get(a.field)
        if g is None:
            continue
        ms, only_w = g
        if only_w and a.mode != 'w':
            continue
        where = '%s:%d' % (a.fn['file'], a.line)
        sn = a.field.replace(Q, '')
        alone = [n for f, n in ALONE if f == sn and within(cx, L, a.fn, n)]
        if a.mode == 'w':
            ok = all(a.has(m, 'w') for m in ms)
        else:
            ok = any(a.has(m) for m in ms)
        seen.add(a.field)
        cx.ob(ok or bool(alone) or a.mine(), a.fn['name'].replace(Q, ''), '%s %s only while holding %s' % ('changes' if a.mode == 'w' else 'looks at', sn, ' and '.join(m.split('::')[-1] for m in ms)), where)
    cx.ob(len(seen) >= len(G) - 6, 'fields', 'guarded fields are used')


@rule('U01', 'escape', 'nobody hands out a reference into state that is guarded by a lock it lets go')
def u01_escape(cx):
    L = locks(cx)
    G = guards(cx, L)
    for f, pa, h, line in L.escapes:
        if pa[2] in G:
            cx.ob(False, f['name'].replace(Q, ''), 'returns a reference into %s' % pa[2].replace(Q, ''), '%s:%d' % (f['file'], line))
    cx.ob(True, 'escapes', '%d references returned' % len(L.escapes))


@rule('U01', 'local', 'a lock guard protects something that outlives the function')
def u01_local(cx):
    L = locks(cx)
    for f, m, md, h, line in L.acq:
        r = L_.root(m)
        cx.ob(r[0] != 'v' or m[0] == 'f' or r[1] not in L.mutex_locals.get(f['key'], ()), f['name'].replace(Q, ''), 'locks a mutex other threads see', '%s:%d' % (f['file'], line))
    cx.need(L.acq, 'acquisitions')


@rule('U01', 'balanced', 'an object that keeps a lock for its lifetime gives it back under the condition it took it')
def u01_balanced(cx):
    L = locks(cx)
    n = 0
    for t in [r for r in cx.p.rec if r.startswith(Q)]:
        g = L.guardlike(t)
        if g is None:
            continue
        n += 1
        s = t.replace(Q, '')
        d = cx.p.fn[t + '::<dtor>()']
        conds = []
        fields = set()
        for f in [c for c in cx.p.methods(t) if c.get('ctor') and c.get('body')] + [d]:
            got = []
            for p in cx.paths(f, opaque=('~Snapshot', '~StateMachine::'), pure=('~inBulkLoad$',)):
                k = [e for e in p.events if e.kind == ('rel' if f is d else 'acq') and last_field(e.loc) == g[2]]
                if p.outcome == 'return':
                    got.append((p, len(k)))
            conds.append((f, got))
        flags = [f['n'] for r in cx.p.recbyname.get(t, ()) for f in r['fields'] if f['t'].replace('const ', '') == 'bool']
        # what the members say decides, and nobody changes them in between
        used = set()
        for f, got in conds:
            for p, k in got:
                cx.ob(k in (0, 1), s, 'takes and gives back once', f['file'], p)
        def locked(p, f):
            row = []
            for x in flags:
                v = this(x) if f is d else p.final(thisloc(x))
                row.append((x, isok_(p, v, True), isok_(p, v, False)))
            return [tuple(row)]

        table = {}
        for f, got in conds[:-1]:
            for p, k in got:
                for row in locked(p, f):
                    table.setdefault(row, set()).add(k)
        dt = {}
        for p, k in conds[-1][1]:
            for row in locked(p, d):
                dt.setdefault(row, set()).add(k)
        for row, ks in dt.items():
            for row2, ks2 in table.items():
                compatible = not any((a[1] and b[2]) or (a[2] and b[1]) for a, b in zip(row, row2))
                if compatible:
                    used |= {a[0] for a in row if a[1] or a[2]} | {a[0] for a in row2 if a[1] or a[2]}
                    cx.ob(ks == ks2 and len(ks) == 1, s, 'gives the lock back exactly when it took it', d['file'])
        for x in used:
            for w in writers(cx, x):
                cx.ob(w.get('ctor'), short_(w['name']), 'does not change what decides whether the lock is held', w['file'])
    cx.ob(n > 0, 'lifetime locks', 'found')


def isok_(p, v, want):
    if v in (TRUE, FALSE):
        return (v == TRUE) == want
    if v is None or v[0] == 'undef':
        return False
    return p.facts.entails(ne(v, ZERO) if want else eq(v, ZERO))


def short_(n):
    return n.replace(Q, '')


def order(cx):
    if getattr(cx.p, '_order', None) is None:
        cx.p._order = L_.Order(locks(cx))
    return cx.p._order


@rule('U02', 'order', 'locks are taken in one order throughout the program')
def u02_order(cx):
    O = order(cx)
    cx.need(len(O.edges) > 50, 'nested acquisitions')
    bad = {}
    for c in O.cycles():
        for m in c:
            bad[m] = c
    for (a, b), ws in sorted(O.edges.items()):
        f, line, via = ws[0]
        together = a in bad and b in bad and bad[a] is bad[b]
        if not together:
            cx.ob(True, short_(f['name']), 'takes %s while holding %s' % (short_(b), short_(a)), '%s:%s' % (f['file'], line))
            continue
        for f, line, via in ws:
            cx.ob(False, short_(f['name']), 'takes %s while holding %s (through %s), elsewhere it is the other way round' % (short_(b), short_(a), str(via).split('(')[0].replace(Q, '')), '%s:%s' % (f['file'], line))


@rule('U02', 'twice', 'nobody takes a lock he already holds, or waits for the end of a thread that needs it')
def u02_twice(cx):
    O = order(cx)
    rec = {f['n'] for r in cx.p.rec.values() for f in r['fields'] if f['t'] == 'std::recursive_mutex'}
    for f, h, m, line, via in O.twice:
        fld = L_.field_of(h)
        # a recursive lock can be taken again by its holder, not by a thread he waits for
        if fld in rec and m[0] != '?':
            continue
        # the tracker counts: being counted twice is no wait for oneself
        if fld.endswith('#inflight') and not waits(O, via):
            continue
        cx.ob(False, short_(f['name']), 'needs %s, which it already holds%s' % (short_(fld), '' if via == 'itself' else ' (through %s)' % str(via).split('(')[0].replace(Q, '')), '%s:%s' % (f['file'], line))
    cx.ob(True, 'acquisitions', '%d acquisitions looked at' % len(O.L.acq))


def waits(O, via, seen=()):
    """whether the callee waits for nobody to be in flight (rather than being counted itself)"""
    if via in seen:
        return False
    for f, m, md, h, line in O.byacq.get(via, ()):
        if L_.field_of(m).endswith('#inflight') and md == 'w':
            return True
    return any(waits(O, k, seen + (via,)) for s in O.bysite.get(via, ()) for k in s.keys if k in O.summ and any(L_.field_of(m).endswith('#inflight') for m in O.summ[k]))


CVWAIT = 'std::condition_variable::wait'


@rule('U02', 'waiting', 'whoever waits for a notification holds no lock but the one he waits with')
def u02_waiting(cx):
    L = locks(cx)
    O = order(cx)
    n = 0
    unt = set()
    for s in L.sites:
        k = s.keys[0].split('(')[0].split('<')[0]
        if not k.startswith(CVWAIT):
            continue
        n += 1
        own = L_.lockvar_of(L, s)
        other = [m for m, md in s.held or () if m[0] != 'own' and m != own and L_.field_of(m) != 'quarkdb::logMutex' and not L_.field_of(m).endswith('#inflight')]
        cx.ob(not other or own is None and len(other) == 1, short_(s.fn['name']), 'waits while holding only the lock it waits with', '%s:%d' % (s.fn['file'], s.line))
        if k == CVWAIT:
            unt.add(s.fn['key'])
    # nobody who may wait without a limit is called with a lock held
    may = set(unt)
    work = True
    while work:
        work = False
        for s in L.sites:
            if s.fn['key'] not in may and any(k in may for k in s.keys):
                may.add(s.fn['key'])
                work = True
    for s in L.sites:
        if any(k in may for k in s.keys):
            ls = [m for m, md in s.held or () if m[0] != 'own' and not L_.field_of(m).endswith('#inflight')]
            cx.ob(not ls, short_(s.fn['name']), 'holds no lock while it may wait without limit', '%s:%d' % (s.fn['file'], s.line))
    cx.ob(n > 5, 'waits', 'found')


# check-then-act: (class, lock, what runs only under it); a decision and the
# change it leads to are one step to everybody else taking that lock
SECTIONS = (
    ('RaftDispatcher', 'raftCommand', r'RaftJournal::(append|addObserver|promoteObserver|demoteToObserver|removeMember|removeEntries|setCommitIndex|compareEntries|matchEntries)$|RaftWriteTracker::(append|flushQueues)$|RaftReplicator::reconfigure$|RaftState::grantVote$'),
    ('RaftWriteTracker', 'mtx', r'RaftJournal::append$|RaftBlockedWrites::(insert|flush|popIndex)$|RedisDispatcher::dispatch$|PendingQueue::(addPendingTransaction|dispatchPending)$'),
    ('RaftJournal', 'contentMutex', r'RaftJournal::(fetch|fetch_or_die)$'),
    ('RaftState', 'update', r'RaftJournal::setCurrentTerm$'),
    ('ConsistencyScanner', 'mtx', r'::verifyChecksum$'),
    ('Shard', 'raftGroupMtx', r'Shard::(detach|start)$'),
)
# the readers of the log, which look once and decide nothing
LOOKERS = ('RaftJournal::fetch', 'RaftJournal::fetch_last', 'RaftJournal::fetch_or_die')


@rule('U01', 'sections', 'a decision and the change it leads to happen in one piece, under the lock the others take as well')
def u01_sections(cx):
    import re
    L = locks(cx)
    n = 0
    for cls, m, pat in SECTIONS:
        if Q + cls not in cx.p.recbyname:
            continue
        k = 0
        for s in L.sites:
            f = s.fn
            if f.get('cls') != Q + cls or f.get('dtor') or '<dtor>' in f['key']:
                continue
            if not any(re.search(pat, x.split('(')[0]) for x in s.keys):
                continue
            if short_(f['name']) in LOOKERS or any(within(cx, L, f, x) for x in LOOKERS):
                continue
            k += 1
            held_ = s.held or ()
            ok = any(x[0] == 'own' or L_.field_of(x) == Q + cls + '::' + m for x, md in held_)
            cx.ob(ok, short_(f['name']), 'calls %s while holding %s' % (short_(s.keys[0].split('(')[0]), m), '%s:%d' % (f['file'], s.line))
        n += k > 0
    cx.need(n >= 4, 'decisions made under a lock')
    # a batch that moves the end of the log is built and written under the lock of the log
    for s in L.sites:
        if not any(x.startswith(Q + 'RaftJournal::commitBatch(') for x in s.keys) or s.fn['name'] == Q + 'RaftJournal::commitBatch':
            continue
        ends = [c['a'][1] for c in walk(s.fn['body']) if c.get('k') == 'call' and c.get('l') == s.line and str(c.get('key', '')).startswith(Q + 'RaftJournal::commitBatch(') and len(c.get('a') or ()) > 1]
        ok = any(x[0] == 'own' or L_.field_of(x) == Q + 'RaftJournal::contentMutex' for x, md in s.held or ())
        cx.ob(ok or all(unmoved(a) for a in ends), short_(s.fn['name']), 'moves the end of the log while holding contentMutex', '%s:%d' % (s.fn['file'], s.line))


def unmoved(a):
    """the argument says that the end of the log stays: -1"""
    while isinstance(a, dict) and isinstance(a.get('e'), dict) and a.get('k') not in ('un', 'mem'):
        a = a['e']
    if a.get('k') == 'un':
        return a.get('op') == '-'
    return a.get('v') in (-1, '-1') or a.get('k') == 'defarg'
