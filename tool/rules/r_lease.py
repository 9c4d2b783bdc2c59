"""Leases: S07."""
from qdb.common import *
from rules.r_store import contains_term, nows
from rules.r_types import S, W, KI, T, on_area, locator, ops, wrong, short, ENDS, loop_maps

SM = S
CACHE = 'quarkdb::ExpirationEventCache::'
LAS = 'quarkdb::LeaseAcquisitionStatus::'
OPQ = (W + 'WriteOperation', W + '~WriteOperation', '~StagingArea::', '~StateMachine::(maybeAdvanceClock|advanceClock|getKeyDescriptor|lease_release|getDynamicClock|getClock)$', '~ExpirationEventCache::')
PURE = ('~WriteOperation::(valid|write|writeField|deleteField|getField|finalize|cancel|keyExists)$', '~Locator::')
KD = 'quarkdb::KeyDescriptor::'
LI = 'quarkdb::LeaseInfo::'


def found(op, n):
    """the field of the description as it was when the operation was opened"""
    return Engine.project(Engine.project(('ctor', 'quarkdb::StateMachine::WriteOperation', op.args), KI), KD + n)


def left(p, op, n):
    return p.final(('f', ('f', op.loc, KI), KD + n))


def event(v):
    """(deadline, key) of the text of an expiration record"""
    c, a = locator(v)
    return tuple(a) if c == 'ExpirationEventLocator' and len(a) == 2 else None


def inside(cx, s, p):
    """everything happens while the lock on the expiration events is held"""
    evs = [e for e in p.calls('~ExpirationEventCache::', '~StagingArea::(put|del|singleDelete|get|exists)$', '~WriteOperation::', '~StateMachine::(maybeAdvanceClock|advanceClock|getClock)$') if 'Locator' not in e.name]
    for e in evs:
        cx.ob(held(e, SM + 'mExpirationCacheMutex'), s, 'leases are looked at and changed in one piece', e.where(), p)
    acq = [e for e in p.events if e.kind == 'acq' and last_field(e.loc) == SM + 'mExpirationCacheMutex']
    cx.ob(bool(acq) and not [e for e in p.events if e.kind == 'rel' and last_field(e.loc) == SM + 'mExpirationCacheMutex' and evs and acq and acq[0].n < e.n < evs[-1].n and not [a for a in acq[1:] if a.n < e.n]], s, 'without letting go in between', None, p)


@rule('S07', 'acquire', 'a lease is granted only if nobody else holds it, and then carries one expiration record, for its new deadline')
def s07_acquire(cx):
    f = cx.fn(SM + 'lease_acquire', pred=on_area)
    s = 'lease_acquire'
    key, val, clk, dur = (P(f, i) for i in (1, 2, 3, 4))
    seen = set()
    for p in cx.paths(f, opaque=OPQ, pure=PURE):
        if p.outcome != 'return':
            continue
        inside(cx, s, p)
        adv = p.calls('~StateMachine::maybeAdvanceClock$')
        oo = ops(p)
        ok = len(adv) == 1 and adv[0].args[1] == clk and len(oo) == 1 and adv[0].n < oo[0].start.n
        cx.ob(ok, s, 'expired leases are dropped first', None, p)
        if not ok:
            continue
        op, now = oo[0], adv[0].ret
        st = p.val[1][len(LAS):] if p.val[0] == 'e' else None
        seen.add(st)
        cx.ob(op.args[1] == key, s, 'on the key given', None, p)
        F = p.facts
        ch = p.calls('~StagingArea::(put|del|singleDelete)$')
        rem, ins = p.calls(CACHE + 'remove'), p.calls(CACHE + 'insert')
        other = [e for e in p.calls('~ExpirationEventCache::') if short(e.name) not in ('remove', 'insert', 'empty', 'size')]
        cx.ob(not other, s, 'no other lease is touched', None, p)
        held_ = [(e, outv(e, 1)) for e in p.calls('~StagingArea::get$') if locator(e.args[0]) == ('LeaseLocator', (key,))]
        if st == 'kKeyTypeMismatch':
            continue
        cx.ob(len(held_) == 1, s, 'the holder is looked up', None, p)
        if len(held_) != 1:
            continue
        g, old = held_[0]
        okst, none = ne(('call', 'rocksdb::Status::ok', g.ret), ZERO), ne(('call', 'rocksdb::Status::IsNotFound', g.ret), ZERO)
        info = p.final(('var', f['params'][5]['id'], 0))
        infos = [e for e in p.calls(LI + 'LeaseInfo') if len(e.args) == 3]
        if st == 'kFailedDueToOtherOwner':
            cx.ob(F.entails(okst) and F.entails(ne(old, val)), s, 'refused only if somebody else holds it', None, p)
            cx.ob(not ch and not rem and not ins and not op.of(('write', 'finalize')), s, 'a refusal changes nothing', None, p)
            want = (old, found(op, 'startIndex'), found(op, 'endIndex'))
            cx.ob(len(infos) == 1 and infos[0].args == want, s, 'a refusal names the holder and its deadline', None, p)
            continue
        cx.ob(st in ('kAcquired', 'kRenewed'), s, 'granted or refused', None, p)
        # an absent value is told from a failed read by the assertion on the status
        cx.ob(not possible(F, ne(old, val)) or not possible(F, okst, ne(old, val)) and F.entails(none), s, 'granted only if nobody else holds it', None, p)
        kx = [result(e) for e in op.of(('keyExists',))]
        was = any(F.entails(ne(x, ZERO)) for x in kx)
        new = any(F.entails(eq(x, ZERO)) for x in kx)
        cx.ob(was != new and (st == 'kRenewed') == was, s, 'renewed exactly if it was held', None, p)
        dead = add(now, dur)
        gone = [e for e in ch if short(e.name) in ('del', 'singleDelete')]
        put = [e for e in ch if short(e.name) == 'put']
        if was:
            d0 = found(op, 'endIndex')
            cx.ob(len(gone) == 1 and event(gone[0].args[0]) == (d0, key), s, 'the record of the old deadline is dropped', None, p)
            cx.ob(len(rem) == 1 and rem[0].args == (d0, key), s, 'the old deadline is forgotten', None, p)
        else:
            cx.ob(not gone and not rem, s, 'nothing to drop for a new lease', None, p)
        cx.ob(len(put) == 1 and event(put[0].args[0]) is not None and F.entails(eq(event(put[0].args[0])[0], dead)) and event(put[0].args[0])[1] == key, s, 'one record, for the new deadline', None, p)
        cx.ob(len(ins) == 1 and F.entails(eq(ins[0].args[0], dead)) and ins[0].args[1] == key, s, 'the new deadline is remembered', None, p)
        if len(ins) == 1 and len(rem) == 1:
            cx.ob(rem[0].n < ins[0].n, s, 'the old deadline is forgotten first', ins[0].where(), p)
        if len(put) == 1 and len(gone) == 1:
            cx.ob(gone[0].n < put[0].n, s, 'the old record is dropped before the new one is written', put[0].where(), p)
        cx.ob(F.entails(eq(left(p, op, 'startIndex'), now)) and F.entails(eq(left(p, op, 'endIndex'), dead)), s, 'the description carries the time and the deadline', None, p)
        w, fin = op.of(('write',)), op.of(('finalize',))
        cx.ob(len(w) == 1 and w[0].args == (val,), s, 'the holder is recorded', None, p)
        cx.ob(len(fin) == 1 and F.entails(ne(fin[0].args[1], ZERO)) and (F.entails(eq(fin[0].args[0], size(val))) or F.entails(ne(fin[0].args[0], ZERO))), s, 'the description is written even if the size did not change', None, p)
        if len(fin) == 1:
            # the fields are in place when the description is written
            for e in p.events:
                if e.kind == 'write' and e.loc[:1] == ('f',) and e.loc[2] in (KD + 'startIndex', KD + 'endIndex'):
                    cx.ob(e.n < fin[0].n, s, 'the deadline is set before the description is written', e.where(), p)
        cx.ob(any(len(e.args) == 3 and e.args[0] == val and F.entails(eq(e.args[1], now)) and F.entails(eq(e.args[2], dead)) for e in infos), s, 'the answer carries holder and deadline', None, p)
    cx.ob(seen == {'kKeyTypeMismatch', 'kFailedDueToOtherOwner', 'kAcquired', 'kRenewed'}, s, 'every answer is possible')


@rule('S07', 'release', 'releasing a lease drops its value, its description and its expiration record')
def s07_release(cx):
    f = cx.fn(SM + 'lease_release', pred=on_area)
    s = 'lease_release'
    key, clk = P(f, 1), P(f, 2)
    seen = set()
    for p in cx.paths(f, opaque=tuple(x for x in OPQ if 'lease_release' not in x) + ('~StateMachine::(maybeAdvanceClock|advanceClock|getKeyDescriptor|getDynamicClock|getClock)$',), pure=PURE):
        if p.outcome != 'return':
            continue
        inside(cx, s, p)
        F = p.facts
        adv = p.calls('~StateMachine::maybeAdvanceClock$')
        oo = ops(p)
        cx.ob(len(oo) == 1 and oo[0].args[1] == key, s, 'on the key given', None, p)
        if len(oo) != 1:
            continue
        op = oo[0]
        if F.entails(ne(clk, ZERO)) or adv:
            cx.ob(len(adv) == 1 and adv[0].args[1] == clk and adv[0].n < op.start.n, s, 'expired leases are dropped first', None, p)
        else:
            cx.ob(F.entails(eq(clk, ZERO)), s, 'expired leases are dropped first', None, p)
        ch = p.calls('~StagingArea::(put|del|singleDelete)$')
        cc = [e for e in p.calls('~ExpirationEventCache::') if short(e.name) not in ('empty', 'size')]
        kx = [result(e) for e in op.of(('keyExists',))]
        fin = op.of(('finalize',))
        if wrong(p):
            seen.add('type')
            cx.ob(not ch and not cc, s, 'a type error changes nothing', None, p)
        elif any(F.entails(eq(x, ZERO)) for x in kx):
            seen.add('none')
            cx.ob(not ch and not cc, s, 'an absent lease changes nothing', None, p)
            cx.ob(not fin or F.entails(eq(fin[0].args[0], ZERO)), s, 'an absent lease stays absent', None, p)
            cx.ob(any(e.ret == p.val for e in p.calls('rocksdb::Status::NotFound')), s, 'an absent lease is answered as absent', None, p)
        else:
            seen.add('released')
            d0 = found(op, 'endIndex')
            evs = [e for e in ch if event(e.args[0]) is not None]
            vals = [e for e in ch if locator(e.args[0]) == ('LeaseLocator', (key,))]
            cx.ob(len(ch) == 2 and len(evs) == 1 and len(vals) == 1 and not [e for e in ch if short(e.name) == 'put'], s, 'only the lease and its record are dropped', None, p)
            cx.ob(len(evs) == 1 and event(evs[0].args[0]) == (d0, key), s, 'the record of its deadline is dropped', None, p)
            cx.ob(len(cc) == 1 and short(cc[0].name) == 'remove' and cc[0].args == (d0, key), s, 'its deadline is forgotten', None, p)
            cx.ob(len(fin) == 1 and F.entails(eq(fin[0].args[0], ZERO)) and p.val == result(fin[0]), s, 'its description is dropped', None, p)
    cx.ob(seen == {'type', 'none', 'released'}, s, 'released, absent, of another type')


@rule('S07', 'get', 'looking at a lease first drops those whose time is over, and answers holder and deadline')
def s07_get(cx):
    f = cx.fn(SM + 'lease_get', pred=on_area)
    s = 'lease_get'
    key, clk = P(f, 1), P(f, 2)
    seen = set()
    for p in cx.paths(f, opaque=OPQ, pure=PURE):
        if p.outcome != 'return':
            continue
        inside(cx, s, p)
        adv = p.calls('~StateMachine::maybeAdvanceClock$')
        ds = p.calls('~StateMachine::getKeyDescriptor$')
        cx.ob(len(adv) == 1 and adv[0].args[1] == clk and len(ds) == 1 and adv[0].n < ds[0].n and ds[0].args[-1] == key, s, 'expired leases are dropped first', None, p)
        if len(ds) != 1:
            continue
        d = result(ds[0])
        g = [e for e in p.calls('~StagingArea::get$') if locator(e.args[0]) == ('LeaseLocator', (key,))]
        infos = [e for e in p.calls(LI + 'LeaseInfo') if len(e.args) == 3]
        if any(e.ret == p.val for e in p.calls('rocksdb::Status::NotFound')):
            seen.add('none')
            cx.ob(not infos, s, 'nothing is answered for an absent lease', None, p)
        elif wrong(p):
            seen.add('type')
        else:
            seen.add('held')
            fld = lambda n: Engine.project(d, KD + n)
            cx.ob(len(g) == 1 and isok(p.facts, g[0].ret), s, 'the holder is looked up', None, p)
            cx.ob(len(g) == 1 and len(infos) == 1 and infos[0].args == (outv(g[0], 1), fld('startIndex'), fld('endIndex')), s, 'answers holder and deadline', None, p)
            cx.ob(p.final(('var', f['params'][3]['id'], 0)) is not None and p.facts.entails(ne(fld('keyType'), T('kNull'))) or not possible(p.facts, ne(fld('keyType'), T('kLease'))), s, 'only leases are answered', None, p)
    cx.ob(seen == {'none', 'type', 'held'}, s, 'absent, of another type, held')
    ctor = [g for g in cx.p.fns(LI + 'LeaseInfo') if len(g['params']) == 3]
    cx.need(len(ctor) == 1, 'LeaseInfo(value, renewal, deadline)')
    g = ctor[0]
    for p in cx.paths(g):
        for n, i in (('value', 0), ('lastRenewal', 1), ('deadline', 2)):
            cx.ob(p.final(thisloc(LI + n)) == P(g, i), 'LeaseInfo', 'keeps what it was given', g['file'], p)
    for m, n in (('getValue', 'value'), ('getLastRenewal', 'lastRenewal'), ('getDeadline', 'deadline')):
        for p in returns(cx.paths(cx.fn(LI + m))):
            cx.ob(p.val == this(LI + n), m, 'answers what it was given', None, p)


@rule('S07', 'expiry', 'advancing the clock releases exactly the leases whose deadline has passed')
def s07_expiry(cx):
    f = cx.fn(SM + 'advanceClock', pred=on_area)
    s = 'advanceClock'
    new = P(f, 1)
    n = z = 0
    for p in cx.paths(f, opaque=('~StagingArea::', '~lease_release$', '~StateMachine::getClock$', '~ExpirationEventCache::')):
        if p.outcome == 'throw':
            cx.ob(not p.calls('~StagingArea::put$'), s, 'the clock is not moved if a lease cannot be released', None, p)
            continue
        if p.outcome not in ('return', 'loop'):
            continue
        inside(cx, s, p)
        put = p.calls('~StagingArea::put$')
        rel = p.calls('~lease_release$')
        front = p.calls(CACHE + 'getFrontDeadline')
        for e in rel:
            n += 1
            which = [x for x in p.calls(CACHE + 'getFrontLease') if result(x) == e.args[1] and x.n < e.n]
            seen = [x for x in front if x.n < e.n and not [y for y in rel if x.n < y.n < e.n] and e.facts.entails(le(result(x), new))]
            cx.ob(bool(which) and bool(seen) and not [y for y in rel if which[0].n < y.n < e.n], s, 'only the first lease to expire, whose deadline has passed, is released', e.where(), p)
            cx.ob(e.facts.entails(eq(e.args[2], ZERO)), s, 'releasing does not move the clock again', e.where(), p)
            cx.ob(p.facts.entails(ne(('call', 'rocksdb::Status::ok', result(e)), ZERO)), s, 'a lease that cannot be released is not passed over', e.where(), p)
            cx.ob(len(e.loops) == 1, s, 'every such lease is released', e.where(), p)
        cc = [e for e in p.calls('~ExpirationEventCache::') if short(e.name) in ('remove', 'pop_front', 'insert', 'clear')]
        cx.ob(not cc, s, 'deadlines are forgotten only by releasing', None, p)
        cx.ob(p.outcome != 'return' or len(put) == 1, s, 'the clock is moved', None, p)
        for e in put:
            z += 1
            last = max([x.n for x in rel if x.n < e.n] + [0])
            asked = [(short(x.name), result(x)) for x in p.calls('~ExpirationEventCache::') if last < x.n < e.n]
            good = any(m == 'empty' and e.facts.entails(ne(r, ZERO)) or m == 'size' and e.facts.entails(eq(r, ZERO)) or m == 'getFrontDeadline' and e.facts.entails(gt(r, new)) for m, r in asked)
            cx.ob(good and not [x for x in rel if x.n > e.n], s, 'no lease whose deadline has passed is left', e.where(), p)
    cx.ob(n > 0 and z > 0, s, 'releases and moves')


@rule('S07', 'records', 'the deadlines kept in memory are those of the store')
def s07_records(cx):
    f = cx.fn(SM + 'loadExpirationCache')
    s = 'loadExpirationCache'
    IT = 'quarkdb::ExpirationEventIterator::'
    n = 0
    for p in cx.paths(f, opaque=('~StagingArea::', '~ExpirationEventCache::', IT + 'next', IT + 'ExpirationEventIterator'), pure=(IT + 'valid', IT + 'getDeadline', IT + 'getRedisKey')):
        if p.outcome != 'return':
            continue
        for e in p.calls(CACHE + 'insert'):
            n += 1
            a = e.args
            ok = a[0][:2] == ('call', IT + 'getDeadline') and a[1][:2] == ('call', IT + 'getRedisKey') and a[0][2] == a[1][2]
            cx.ob(ok and e.facts.entails(ne(('call', IT + 'valid', a[0][2]), ZERO)) if ok else False, s, 'the deadline and key of one record are remembered together', e.where(), p)
            nx = [x for x in p.calls(IT + 'next') if x.loops == e.loops]
            cx.ob(len(nx) == 1 and len(e.loops) == 1 and nx[0].n > e.n, s, 'one record after the other', e.where(), p)
        if not p.calls(CACHE + 'insert'):
            ct = p.calls(IT + 'ExpirationEventIterator')
            cx.ob(any(l[0] == 'eq' and any(t[0] == 'call' and t[1] == IT + 'valid' for t, _ in l[1]) for l in p.facts.all() if isinstance(l[1], tuple)), s, 'nothing to remember only if there is no record', None, p)
        cx.ob(not [e for e in p.calls('~StagingArea::(put|del|singleDelete)$')], s, 'loading changes nothing', None, p)
    cx.ob(n > 0, s, 'remembers')
    # it is loaded whenever a store is opened
    op = [g for g, _ in callers(cx, SM + 'loadExpirationCache')]
    cx.ob(any(g['name'] == SM + 'StateMachine' for g in op), 'StateMachine', 'opening a store loads the deadlines')
    f = cx.fn(SM + 'StateMachine')
    for p in cx.paths(f, opaque=('~StateMachine::(?!StateMachine$)', '~WriteStallWarner', '~rocksdb::', '~Thread', '~Timekeeper', '~RequestCounter', '~ParanoidManifestChecker', '~ExpirationEventCache', '~FsyncThread')):
        if p.outcome == 'return':
            ld = p.calls(SM + 'loadExpirationCache')
            cx.ob(len(ld) == 1, 'StateMachine', 'opening a store loads the deadlines', None, p)
            for e in ld:
                cx.ob(any(x.n < e.n for x in p.calls('~StateMachine::openDB$', '~rocksdb::DB::Open')), 'StateMachine', 'once it is open', e.where(), p)
    # only these change what is remembered
    for m in ('insert', 'remove', 'clear', 'pop_front'):
        for g, node in callers(cx, CACHE + m):
            cx.ob(short(g['name']) in {'insert': ('lease_acquire', 'loadExpirationCache'), 'remove': ('lease_acquire', 'lease_release'), 'clear': ('flushall', 'reset'), 'pop_front': ()}[m] or not g['name'].startswith(SM), short(g['name']), 'deadlines change only with their leases', '%s:%s' % (g['file'], node.get('l')))
    # a key that holds a lease is deleted by releasing the lease
    f = cx.fn(SM + 'del', pred=on_area)
    n = 0
    for p in cx.paths(f, opaque=OPQ + ('~remove_all_with_prefix$', '~VersionedHashRevision', SM + 'lockKeyDescriptor'), pure=PURE + (KD + 'getKeyType', KD + 'empty', KD + 'getSize')):
        if p.outcome != 'return':
            continue
        for d in p.calls('~StateMachine::(getKeyDescriptor|lockKeyDescriptor)$'):
            k = ('call', KD + 'getKeyType', result(d))
            rel = [e for e in p.calls('~StateMachine::lease_release$')]
            for e in rel:
                n += 1
                own = d.args[-1][2][0] if d.args[-1][0] == 'ctor' and short(d.args[-1][1]) == 'DescriptorLocator' else d.args[-1]
                cx.ob(e.facts.entails(eq(k, T('kLease'))) and e.args[1] == own, 'del', 'only leases are released, by their own key', e.where(), p)
                cx.ob(e.facts.entails(eq(e.args[2], ZERO)), 'del', 'deleting does not move the clock', e.where(), p)
                cx.ob(p.facts.entails(ne(('call', 'rocksdb::Status::ok', result(e)), ZERO)), 'del', 'a lease that cannot be released is not passed over', e.where(), p)
            if p.facts.entails(eq(k, T('kLease'))):
                cx.ob(bool(rel), 'del', 'a deleted lease is released', d.where(), p)
    cx.ob(n > 0, 'del', 'releases leases')
    f = cx.fn(SM + 'flushall', pred=on_area)
    for p in cx.paths(f, opaque=OPQ + ('~remove_all_with_prefix$', '~VersionedHashRevision'), pure=PURE):
        if p.outcome == 'return':
            c = p.calls(CACHE + 'clear')
            cx.ob(len(c) == 1 and held(c[0], SM + 'mExpirationCacheMutex'), 'flushall', 'all deadlines are forgotten with all keys', None, p)
