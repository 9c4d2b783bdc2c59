"""Atomic application of log entries: S01; reads never write: S09."""
from qdb.common import *
from rules.r_cmd import command_table
from rules.r_tx import visits_changing


def short(n):
    return n.rsplit('::', 1)[-1]

S = 'quarkdb::StateMachine::'
A = 'quarkdb::StagingArea::'
D = 'quarkdb::RedisDispatcher::'
LA = S + 'lastApplied'
KEY = ('s', '__last-applied')
WB = A + 'writeBatchWithIndex'
PB = A + 'writeBatch'
DBW = '~rocksdb::DB::(Write|Put|Delete|SingleDelete|DeleteRange|Merge|IngestExternalFile|DropColumnFamily|CompactRange)$'
MUT = '~StagingArea::(put|del|singleDelete|commit)$'
SM_OPQ = ('~StagingArea::', '~RedisDispatcher::dispatch(Write|Read|ReadWrite)$', '~StateMachine::', '~Publisher::', '~RequestCounter::', '~handlePing$', '~Dispatcher::', '~Transaction::', '~RedisRequest::', '~Formatter::')


def db_changes(p):
    return p.calls(DBW)


def journaled(e, wal):
    o = e.args[0]
    d = [Engine.project(o, x) for x in ('rocksdb::WriteOptions::disableWAL',)]
    return all(not possible(e.facts, ne(wal, ZERO), ne(v, ZERO)) for v in d) if o[0] == 'struct' else True


@rule('S01', 'atomic', 'the new position travels in the very batch of the data, one write, and advances by one')
def s01_atomic(cx):
    f = cx.fn(S + 'commitTransaction')
    s = 'commitTransaction'
    idx = P(f, 1)
    wb = ('var', f['params'][0]['id'], 0)
    cur = this(LA)
    n = {'tracked': 0, 'free': 0, 'refused': 0}
    for p in cx.paths(f):
        w = db_changes(p)
        pos = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(LA)]
        keys = [e for e in p.calls('~rocksdb::WriteBatch(WithIndex|Base)?::(Put|Delete|Merge|SingleDelete|Clear)$')]
        for e in w + pos:
            cx.ob(held(e, S + 'lastAppliedMtx'), s, 'the position moves under its lock', e.where(), p)
        for e in w:
            cx.ob(e.name.endswith('::Write'), s, 'the store is written by one batch', e.where(), p)
            cx.ob(repr(('init', wb)) in repr(e.args[1]) or repr(('d', wb)) in repr(e.args[1]) or any(wb == g.objloc or repr(wb) in repr(g.objloc) for g in p.calls('~WriteBatchWithIndex::GetWriteBatch$') if g.n < e.n and result(g) == e.args[1]), s, 'the batch written is the one given', e.where(), p)
            if not e.facts.refutes(gt(idx, ZERO)):
                cx.ob(e.facts.entails(eq(idx, add(cur, C(1)))), s, 'a tracked write is the one right after the last applied', e.where(), p)
                mine = [k for k in keys if k.n < e.n and k.name.endswith('::Put') and k.args[0] == KEY and k.args[1] == int_bin(idx) and e.facts.entails(ne(('call', 'rocksdb::Status::ok', result(k)), ZERO)) and (k.objloc == wb or repr(wb) in repr(k.objloc))]
                cx.ob(len(mine) == 1, s, 'the new position is in the same batch as the data', e.where(), p)
            else:
                cx.ob(e.facts.entails(le(cur, ZERO)), s, 'an untracked write is accepted only by an untracked store', e.where(), p)
        for e in w:
            cx.ob(journaled(e, this(S + 'writeAheadLog')), s, 'the write-ahead log is left out only when configured so', e.where(), p)
        for k in keys:
            cx.ob(k.name.endswith('::Put') and k.args[0] == KEY and k.args[1] == int_bin(idx) and k.facts.entails(gt(idx, ZERO)), s, 'nothing but the position is added to the batch', k.where(), p)
        for e in pos:
            cx.ob(p.facts.eqv(e.val, idx) and any(x.n < e.n and isok(e.facts, x.ret) for x in w), s, 'the position in memory follows the one on disk', e.where(), p)
        if p.outcome == 'return':
            cx.ob(len(w) == 1 and isok(p.facts, w[0].ret), s, 'returns only when the store accepted the batch', None, p)
            if p.facts.refutes(gt(idx, ZERO)):
                n['free'] += 1
                cx.ob(not pos, s, 'an untracked write leaves the position alone', None, p)
            else:
                n['tracked'] += 1
                cx.ob(len(pos) == 1 and p.facts.eqv(p.final(thisloc(LA)), idx), s, 'afterwards the position is the one applied', None, p)
            last = max([e.n for e in pos] or [0])
            cx.ob(any(e.n > last for e in p.calls('~condition_variable(_any)?::notify_all$') if e.objloc == thisloc(S + 'lastAppliedCV')), s, 'whoever waits for the position is woken', None, p)
        else:
            n['refused'] += 1
            cx.ob(not pos, s, 'a refused or failed write leaves the position alone', None, p)
            okw = [x for x in w if p.facts.entails(ne(('call', 'rocksdb::Status::ok', x.ret), ZERO))]
            cx.ob(not okw, s, 'a write that happened is not reported as failed', None, p)
            if not w:
                bad = [eq(cur, sub(idx, C(1)))]
                cx.ob(not possible(p.facts, gt(idx, ZERO), eq(idx, add(cur, C(1)))) or keys, s, 'the next position is not refused', None, p)
                cx.ob(not possible(p.facts, le(idx, ZERO), le(cur, ZERO)), s, 'an untracked write to an untracked store is not refused', None, p)
    cx.ob(all(n.values()), s, 'tracked, untracked and refused writes exist')
    f = cx.fn(S + 'commitBatch')
    for p in cx.paths(f):
        w = db_changes(p)
        for e in w:
            cx.ob(journaled(e, this(S + 'writeAheadLog')), 'commitBatch', 'the write-ahead log is left out only when configured so', e.where(), p)
        if p.outcome == 'return':
            cx.ob(len(w) == 1 and w[0].name.endswith('::Write') and isok(p.facts, w[0].ret) and repr(('var', f['params'][0]['id'], 0)) in repr(w[0].args[1]) + repr(w[0].arglocs[1]), 'commitBatch', 'returns only when the store accepted the batch', None, p)
    f = cx.fn(S + 'waitUntilTargetLastApplied')
    s_ = 'waitUntilTargetLastApplied'
    got = {True: 0, False: 0}
    for p, b, F in bool_cases(cx.paths(f, reads=True)):
        rd = [e.val for e in p.events if e.kind == 'read' and e.loc == thisloc(LA)] + [p.final(thisloc(LA))]
        got[bool(b)] += 1
        if b:
            cx.ob(any(F.entails(le(P(f, 0), v)) for v in rd if v is not None), s_, 'reached only when it was applied', None, p)
        else:
            cx.ob(any(F.entails(gt(P(f, 0), v)) for v in rd if v is not None), s_, 'not reached only when it was not applied', None, p)
            cx.ob(p.calls('~condition_variable(_any)?::wait'), s_, 'waits before giving up', None, p)
    cx.ob(all(got.values()), s_, 'reached or not')
    # who moves the position, and who reaches the store
    W = {'commitTransaction', 'retrieveLastApplied', 'forceResetLastApplied', 'StateMachine'}
    for g in writers(cx, LA):
        cx.ob(g['name'].startswith(S) and g['name'].rsplit('::', 1)[1] in W, short(g['name']), 'the position is moved only by applying, opening or resetting', g['file'])
    for g, node in callers(cx, '~StateMachine::commitTransaction$'):
        cx.ob(g['name'] == A + 'commit', short(g['name']), 'batches are applied only through the staging area', '%s:%s' % (g['file'], node.get('l')))
    for g, node in callers(cx, '~StateMachine::commitBatch$'):
        cx.ob(g['name'] in (A + 'commit', 'quarkdb::KeyDescriptorBuilder::KeyDescriptorBuilder'), short(g['name']), 'untracked batches come from bulk load only', '%s:%s' % (g['file'], node.get('l')))
    for g, node in callers(cx, '~StateMachine::forceResetLastApplied$'):
        cx.ob(g['name'].startswith('quarkdb::ShardDirectory::'), short(g['name']), 'the position is reset only while setting up a shard', '%s:%s' % (g['file'], node.get('l')))
    direct = {'commitTransaction', 'commitBatch', 'retrieveLastApplied', 'forceResetLastApplied', 'ensureClockSanity', 'ensureBulkloadSanity', 'ensureCompatibleFormat', 'reset', 'finalizeBulkload', 'manualCompaction', 'StateMachine'}
    m = 0
    for fk, g in cx.p.fn.items():
        if not g['name'].startswith(S):
            continue
        for x in walk(g.get('body')):
            if x.get('k') == 'call' and match(x.get('f') or '', (DBW,)):
                m += 1
                nm = g['name'][len(S):]
                ok_ = nm in direct or all(h['name'].startswith(S) and h['name'][len(S):] in direct for h, _ in callers(cx, g['name']))
                cx.ob(ok_, short(g['name']), 'the store is changed directly only while opening, resetting or finalizing it', '%s:%s' % (g['file'], x.get('l')))
    cx.need(m >= 6, 'direct changes of the store')


@rule('S01', 'position', 'the position read back on opening is the one last written')
def s01_position(cx):
    f = cx.fn(S + 'retrieveLastApplied')
    s = 'retrieveLastApplied'
    n = 0
    for p in cx.paths(f):
        get = [e for e in p.calls('~rocksdb::DB::Get$') if KEY in e.args]
        put = db_changes(p)
        if p.outcome == 'throw':
            cx.ob(len(get) == 1 and not p.facts.entails(ne(('call', 'rocksdb::Status::ok', get[0].ret), ZERO)), s, 'opening fails only when the position cannot be read or written', None, p)
            continue
        n += 1
        fin = p.final(thisloc(LA))
        if len(get) == 1 and isok(p.facts, get[0].ret):
            o = [i for i, a in enumerate(get[0].args) if a == KEY][0] + 1
            cx.ob(is_call(fin, 'quarkdb::binaryStringToInt') and repr(outv(get[0], o)) in repr(fin) and not put, s, 'the stored position', None, p)
        else:
            cx.ob(len(get) == 1 and p.facts.entails(ne(('call', 'rocksdb::Status::IsNotFound', get[0].ret), ZERO)) and p.facts.eqv(fin, ZERO) and
                  len(put) == 1 and put[0].args[1] == KEY and put[0].args[2] == int_bin(ZERO) and isok(p.facts, put[0].ret), s, 'a store without a position starts at zero', None, p)
    cx.ob(n >= 2, s, 'reads or creates the position')
    f = cx.fn(S + 'forceResetLastApplied')
    s = 'forceResetLastApplied'
    for p in cx.paths(f):
        put = db_changes(p)
        pos = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(LA)]
        for e in pos + put:
            cx.ob(held(e, S + 'lastAppliedMtx'), s, 'under the lock of the position', e.where(), p)
        if p.outcome == 'return':
            cx.ob(len(put) == 1 and put[0].args[1] == KEY and put[0].args[2] == int_bin(P(f, 0)) and isok(p.facts, put[0].ret), s, 'written to disk', None, p)
            cx.ob(p.facts.eqv(p.final(thisloc(LA)), P(f, 0)), s, 'and in memory', None, p)
        else:
            cx.ob(not pos or not put or pos[0].n < put[0].n or not isok(p.facts, put[0].ret), s, 'failing to write is an error', None, p)


@rule('S01', 'staging', 'a staging area collects every write and hands them over together, once')
def s01_staging(cx):
    ro, bulk = this(A + 'readOnly'), this(A + 'bulkLoad')
    f = cx.fn(A + 'commit')
    s = 'StagingArea::commit'
    n = 0
    for p in cx.paths(f, opaque=('~StateMachine::',)):
        tr, ba = p.calls('~StateMachine::commitTransaction$'), p.calls('~StateMachine::commitBatch$')
        for e in tr:
            cx.ob(e.facts.entails(eq(bulk, ZERO)) and e.facts.eqv(e.args[1], P(f, 0)) and e.arglocs[0] == thisloc(WB), s, 'commits what was collected, at the position given', e.where(), p)
        for e in ba:
            cx.ob(e.facts.entails(ne(bulk, ZERO)) and e.facts.entails(eq(P(f, 0), ZERO)) and e.arglocs[0] == thisloc(PB), s, 'bulk loads carry no position', e.where(), p)
        if p.outcome == 'return':
            n += 1
            cx.ob(len(tr) + len(ba) == 1, s, 'one commit', None, p)
            cx.ob(p.facts.entails(eq(ro, ZERO)), s, 'a read-only staging area commits nothing', None, p)
        else:
            cx.ob(not possible(p.facts, eq(ro, ZERO), eq(bulk, ZERO)), s, 'a normal commit is not refused', None, p)
    cx.ob(n >= 2, s, 'commits')
    for nm, ops in (('put', 'Put'), ('del', 'Delete'), ('singleDelete', 'SingleDelete')):
        f = cx.fn(A + nm)
        s = 'StagingArea::' + nm
        args = tuple(P(f, i) for i in range(len(f['params'])))
        n = 0
        for p in cx.paths(f):
            w = p.calls('~rocksdb::WriteBatch(WithIndex|Base)?::')
            cx.ob(not db_changes(p), s, 'nothing reaches the store before the commit', None, p)
            if p.outcome != 'return':
                cx.ob(not possible(p.facts, eq(ro, ZERO), eq(bulk, ZERO), *[ne(('call', 'rocksdb::Status::ok', result(e)), ZERO) for e in w]), s, 'a normal write is not refused', None, p)
                continue
            n += 1
            cx.ob(p.facts.entails(eq(ro, ZERO)), s, 'a read-only staging area takes no writes', None, p)
            if p.facts.entails(eq(bulk, ZERO)):
                cx.ob(len(w) == 1 and w[0].name.endswith('::' + ops) and tuple(w[0].args) == args and w[0].objloc == thisloc(WB) and p.facts.entails(ne(('call', 'rocksdb::Status::ok', result(w[0])), ZERO)), s, 'the write is collected as given', None, p)
            else:
                cx.ob(p.facts.entails(ne(bulk, ZERO)) and nm == 'put', s, 'bulk load allows only additions', None, p)
                kd = ('e', 'quarkdb::InternalKeyType::kDescriptor')
                if w:
                    cx.ob(len(w) == 1 and w[0].name.endswith('::Put') and tuple(w[0].args) == args and w[0].objloc == thisloc(PB), s, 'the write is collected as given', None, p)
                else:
                    cx.ob(any(p.facts.entails(eq(t, kd)) for t in (('call', '[]', args[0], ZERO), ('ix', args[0], ZERO), ('call', 'front', args[0]))), s, 'only key descriptors are left out', None, p)
        cx.ob(n > 0, s, 'collects writes')
    # one writer at a time
    mt = None
    for f in cx.p.fn.values():
        if f['name'] in (A + 'StagingArea', A + '~StagingArea'):
            ctor = not f['name'].endswith('~StagingArea')
            s = 'StagingArea' if ctor else '~StagingArea'
            for p in returns(cx.paths(f, opaque=('~StateMachine::Snapshot',))):
                lk = [e for e in p.events if e.kind in ('acq', 'rel') and 'writeMtx' in repr(e.loc or e.objloc or e.info)]
                fro, fbu = (p.final(thisloc(A + 'readOnly')), p.final(thisloc(A + 'bulkLoad'))) if ctor else (ro, bulk)
                if ctor:
                    cx.ob(p.facts.eqv(fro, P(f, 1)), s, 'read-only as asked', None, p)
                if ctor:
                    wb = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(WB)]
                    cx.ob(len(wb) == 1 and wb[0].val[0] == 'ctor' and len(wb[0].val[2]) > 2 and not is_zero(wb[0].val[2][2]) and wb[0].val[2][2][0] == 'c', s, 'a key written twice in one batch keeps its last value', None, p)
                if lk:
                    w = p.facts.entails(eq(fro, ZERO)) and p.facts.entails(eq(fbu, ZERO))
                else:
                    w = possible(p.facts, eq(fro, ZERO), eq(fbu, ZERO))
                cx.ob((len(lk) == 1 and lk[0].kind == ('acq' if ctor else 'rel')) if w else not lk, s, 'holds the write lock exactly while it can write', None, p)
                if ctor and possible(p.facts, ne(fro, ZERO)):
                    cx.ob(any(e.kind == 'write' and e.loc == thisloc(A + 'snapshot') and not is_zero(e.val) and e.val != ('null',) and 'new' in repr(e.val) for e in p.events), s, 'reads see one moment of the store', None, p)


@rule('S01', 'reads', 'inside a write, reads see the writes made before it')
def s01_reads(cx):
    ro, bulk = this(A + 'readOnly'), this(A + 'bulkLoad')
    for nm in ('get', 'exists', 'getForUpdate'):
        f = cx.fn(A + nm)
        s = 'StagingArea::' + nm
        n = 0
        for p in returns(cx.paths(f)):
            g = p.calls('~rocksdb::(DB|WriteBatchWithIndex)::Get')
            if p.facts.entails(ne(bulk, ZERO)):
                cx.ob(is_call(p.val, 'rocksdb::Status::NotFound') or 'NotFound' in repr(p.val), s, 'bulk load reads nothing', None, p)
                continue
            n += 1
            cx.ob(p.facts.entails(eq(bulk, ZERO)), s, 'bulk load reads nothing', None, p)
            cx.ob(len(g) == 1 and p.val == g[0].ret and P(f, 0) in g[0].args, s, 'one lookup of the key asked for, its status returned', None, p)
            if p.facts.entails(ne(ro, ZERO)):
                cx.ob(len(g) == 1 and g[0].name.endswith('DB::Get') and 'snapshot' in repr(g[0].args[0]), s, 'reads use the snapshot', None, p)
            else:
                cx.ob(p.facts.entails(eq(ro, ZERO)) and len(g) == 1 and g[0].name.endswith('::GetFromBatchAndDB') and g[0].objloc == thisloc(WB), s, 'reads within a write look into the batch first', None, p)
        cx.ob(n > 0, s, 'looks keys up')
    f = cx.fn(A + 'readFromWriteBatch')
    s = 'StagingArea::readFromWriteBatch'
    for p in returns(cx.paths(f)):
        g = p.calls('~rocksdb::(DB|WriteBatch(WithIndex|Base)?)::Get')
        if p.facts.entails(eq(bulk, ZERO)):
            cx.ob(len(g) == 1 and g[0].name.endswith('::GetFromBatch') and g[0].objloc == thisloc(WB) and P(f, 0) in g[0].args and p.val == g[0].ret, s, 'one lookup in what was collected', None, p)
        else:
            cx.ob(p.facts.entails(ne(bulk, ZERO)) and not g, s, 'bulk load reads nothing', None, p)
    f = cx.fn(A + 'getIterator')
    s = 'StagingArea::getIterator'
    for p in returns(cx.paths(f)):
        over = p.calls('~WriteBatchWithIndex::NewIteratorWithBase$')
        it = p.calls('~rocksdb::DB::NewIterator$')
        if p.facts.entails(ne(ro, ZERO)):
            cx.ob(len(it) == 1 and 'snapshot' in repr(it[0].args[0]) and not over, s, 'reads use the snapshot', None, p)
        elif p.facts.entails(ne(bulk, ZERO)):
            cx.ob(not it, s, 'bulk load reads nothing', None, p)
        else:
            cx.ob(p.facts.entails(eq(bulk, ZERO)) and p.facts.entails(eq(ro, ZERO)), s, 'bulk load reads nothing, reads use the snapshot', None, p)
            cx.ob(len(over) == 1 and over[0].objloc == thisloc(WB) and len(it) == 1 and it[0].ret in over[0].args, s, 'reads within a write see the batch over the store', None, p)


def commit_shape(cx, f, s, idx, cond=None):
    """what a function that opens a staging area does with it"""
    n = 0
    for p in returns(cx.paths(f, opaque=SM_OPQ)):
        made = p.calls('~StagingArea::StagingArea$')
        com = p.calls('~StagingArea::commit$')
        if not made:
            cx.ob(not com, s, 'nothing is committed without a staging area', None, p)
            continue
        n += 1
        cx.ob(len(made) == 1, s, 'one staging area for everything', None, p)
        cx.ob(len(com) <= 1, s, 'at most one commit', None, p)
        for e in com:
            cx.ob(e.facts.eqv(e.args[0], idx), s, 'commits at the position given', e.where(), p)
            cx.ob(all(x.n < e.n for x in p.events if x.kind == 'call' and x is not e and x.arglocs and any(l is not None and repr(l) == repr(e.objloc) for l in x.arglocs)), s, 'nothing is added after the commit', e.where(), p)
        cx.ob(cond(p, made[0], com), s, 'commits exactly what can write', None, p)
    return n


@rule('S01', 'dispatch', 'a request or transaction is run once, in one staging area, and committed once at its position')
def s01_dispatch(cx):
    W = ('e', 'quarkdb::CommandType::WRITE')
    R = ('e', 'quarkdb::CommandType::READ')
    tx = cx.fn(D + 'dispatch', pred=lambda g: len(g['params']) == 2 and 'Transaction' in g['params'][0]['t'] and 'Connection' not in g['params'][0]['t'] and 'StagingArea' not in g['params'][0]['t'])

    def both(p, made, com, flag):
        """flag: term that is non-zero when there is something to commit"""
        ro = made.args[1] if len(made.args) > 1 else ZERO
        if p.facts.entails(ne(flag, ZERO)):
            return len(com) == 1 and (is_zero(ro) or p.facts.entails(eq(ro, ZERO)))
        return p.facts.entails(eq(flag, ZERO)) and not com
    n = 0
    s = 'dispatch(Transaction)'
    for p in returns(cx.paths(tx, opaque=SM_OPQ + ('~RedisDispatcher::dispatch$',))):
        made, com, run = p.calls('~StagingArea::StagingArea$'), p.calls('~StagingArea::commit$'), p.calls('~RedisDispatcher::dispatch(ReadOnly)?$')
        n += 1
        cw = [x.ret for x in p.calls('~Transaction::containsWrites$')]
        cx.ob(len(made) == 1 and len(run) == 1 and run[0].arglocs[1] == ('var', tx['params'][0]['id'], 0), s, 'the transaction is run once, in one staging area', None, p)
        yes = any(p.facts.entails(ne(c, ZERO)) for c in cw)
        no = any(p.facts.entails(eq(c, ZERO)) for c in cw)
        cx.ob(yes != no and len(com) == (1 if yes else 0), s, 'committed exactly when it contains writes', None, p)
        for e in com:
            cx.ob(p.facts.eqv(e.args[0], P(tx, 1)) and all(r.n < e.n for r in run) and made and repr(e.objloc) == repr(run[0].arglocs[0]), s, 'the commit follows the run, at the position given', e.where(), p)
    cx.ob(n >= 2, s, 'runs')
    for g in cx.p.fn.values():
        if g['name'] == D + 'dispatch' and 'Connection' in g['params'][0]['t']:
            m = 0
            for p in returns(cx.paths(g, opaque=('~RedisDispatcher::dispatch$', '~Connection::', '~Formatter::'))):
                for e in p.calls('~RedisDispatcher::dispatch$'):
                    m += 1
                    cx.ob(is_zero(e.args[-1]), 'dispatch(Connection)', 'clients of a single node carry no position', e.where(), p)
            cx.ob(m > 0, 'dispatch(Connection)', 'runs the request', g['file'])
    # every request of a transaction
    f = cx.fn(D + 'dispatch', pred=lambda g: len(g['params']) == 2 and 'StagingArea' in g['params'][0]['t'])
    for f, item in ((f, '~dispatch(ReadWrite|Write|Read)$'), (cx.fn(D + 'dispatchReadOnly'), '~dispatchRead$')):
        s = short(f['name'])
        m = 0
        for p in returns(cx.paths(f, opaque=('~RedisDispatcher::dispatch(Write|Read|ReadWrite)$', '~ArrayResponseBuilder::', '~Formatter::'))):
            runs_ = p.calls(item)
            b = [x for x in p.calls('~ArrayResponseBuilder::push_back$')]
            for e in runs_:
                m += 1
                cx.ob(bool(e.loops) and (visits_changing(p, e.loops[-1], e.args[1]) or visits(p, e.loops, e.args[1], lambda k: True)), s, 'every request of the transaction, in order', e.where(), p)
                cx.ob(any(x.n > e.n and x.args[0] == e.ret for x in b), s, 'its reply is kept in its place', e.where(), p)
            cx.ob(not p.calls('~StagingArea::commit$'), s, 'no commit between the requests', None, p)
        cx.ob(m > 0, s, 'runs the requests')
    # single requests
    f = cx.fn(D + 'dispatchReadWriteAndCommit')
    s = 'dispatchReadWriteAndCommit'
    ct = None
    n = 0
    for p in returns(cx.paths(f, opaque=SM_OPQ, pure=('~RedisRequest::getCommand(Type)?$',))):
        made, com, run = p.calls('~StagingArea::StagingArea$'), p.calls('~StagingArea::commit$'), p.calls('~RedisDispatcher::dispatch(ReadWrite|Write|Read)$')
        n += 1
        cts = {t for l in p.facts.all() for t, k in l[1] if t[0] == 'call' and t[1].endswith('::getCommandType')}
        cx.ob(len(cts) <= 1, s, 'asks for the class of this request')
        w = any(p.facts.entails(eq(t, W)) for t in cts)
        cx.ob(len(made) == 1 and len(run) == 1 and p.val == run[0].ret, s, 'the request is run once, in one staging area', None, p)
        cx.ob(len(com) == (1 if w else 0) and (w or any(p.facts.entails(ne(t, W)) for t in cts)), s, 'committed exactly when it is a write', None, p)
        if w and made:
            ro = made[0].args[1] if len(made[0].args) > 1 else ZERO
            first = ('call', 'quarkdb::RedisRequest::getCommandType', P(f, 0))
            cx.ob(all(is_zero(decide(fx, ro)) for fx in p.facts.with_(eq(first, W))), s, 'a write gets a staging area it can write to', None, p)
        for e in com:
            cx.ob(p.facts.eqv(e.args[0], P(f, 1)) and all(r.n < e.n and repr(r.arglocs[0]) == repr(e.objloc) for r in run), s, 'the commit follows the run, at the position given', e.where(), p)
    cx.ob(n >= 2, s, 'runs')
    # the entry point of the log
    table, _ = command_table(cx)
    f = cx.fn(D + 'dispatch', pred=lambda g: len(g['params']) == 2 and 'RedisRequest' in g['params'][0]['t'])
    s = 'dispatch(RedisRequest)'
    n = 0
    for p in returns(cx.paths(f, opaque=SM_OPQ + ('~dispatchReadWriteAndCommit$', '~StringUtils::', '~startsWith$'), pure=('~RedisRequest::getCommand(Type)?$',))):
        adv = [e for e in p.calls('~StateMachine::noop$') + p.calls('~dispatchReadWriteAndCommit$')]
        for e in adv:
            n += 1
            i = e.args[-1]
            cx.ob(p.facts.eqv(i, P(f, 1)), s, 'applied at the position given', e.where(), p)
        cx.ob(len(adv) <= 1, s, 'applied at most once', None, p)
        if not adv:
            cls = {t[0]: t[1] for t in table.values()}
            other = any(cls.get(t[1].rsplit('::', 1)[1]) not in (None, 'WRITE') for l in p.facts.all() if l[0] == 'eq' for t, k in l[1] if t[0] == 'e' and t[1].startswith('quarkdb::RedisCommand::'))
            if other and not possible(p.facts, gt(P(f, 1), ZERO), ne(('call', 'quarkdb::RedisRequest::getCommandType', P(f, 0)), W)):
                continue        # refused above with a position: only writes are applied
            err = p.calls('~dispatchingError$')
            cx.ob(err or not possible(p.facts, gt(P(f, 1), ZERO)), s, 'an entry of the log is never passed over', None, p)
        for e in p.calls('~dispatchingError$'):
            cx.ob(p.facts.eqv(e.args[1], P(f, 1)), s, 'an entry of the log is never passed over', e.where(), p)
    cx.ob(n >= 2, s, 'applies')
    f = cx.fn(D + 'dispatchingError')
    for p in returns(cx.paths(f, opaque=('~Formatter::',))):
        cx.ob(p.facts.entails(eq(P(f, 1), ZERO)), 'dispatchingError', 'an entry that cannot be applied stops the node', None, p)
    # the convenience functions of the store
    m = 0
    for g in list(cx.p.fn.values()):
        if not (g['name'].startswith(S) and g.get('body')) or not any(x.get('k') == 'call' and x.get('f') == A + 'commit' for x in walk(g['body'])):
            continue
        s = g['name'][len(S):]
        if not (g['params'] and g['params'][-1]['t'] == 'long'):
            cx.ob(False, s, 'commits at a position it was given', g['file'])
            continue
        m += 1
        cx.ob(commit_shape(cx, g, s, P(g, len(g['params']) - 1), lambda p, made, com: len(com) == 1 and (len(made.args) < 2 or is_zero(made.args[1]))) > 0, s, 'commits', g['file'])
    cx.need(m >= 10, 'convenience functions')


# ---- S09
def reach(cx, root):
    """functions reachable from root over resolved calls, with the way they were reached"""
    seen = {root['key']: None}
    todo = [root]
    while todo:
        g = todo.pop()
        for b in [g.get('body')] + [i['e'] for i in g.get('inits', ())]:
            for x in walk(b):
                ks = [x.get('key')] if x.get('k') in ('call', 'ctor', 'fn') else []
                for k in ks:
                    if k in cx.p.fn and k not in seen:
                        seen[k] = (g['key'], x.get('l'))
                        todo.append(cx.p.fn[k])
    return seen


def way(cx, seen, k):
    out = []
    while k is not None:
        out.append(cx.p.fn[k]['name'].rsplit('::', 1)[1])
        k = seen[k][0] if seen[k] else None
    return ' < '.join(out[:6])


WRITES = ('~quarkdb::StagingArea::(put|del|singleDelete|commit)$', '~StateMachine::(commitTransaction|commitBatch|forceResetLastApplied|reset|hardSynchronizeDynamicClock)$', DBW,
          '~StateMachine::WriteOperation::', '~RedisDispatcher::dispatchWrite$', '~RedisDispatcher::dispatchReadWrite$', '~ExpirationEventCache::(insert|remove|pop_front|clear)$', '~VersionedHashRevision(Tracker|s)::(add|forKey)')


@rule('S09', 'reads', 'nothing a read can reach changes the store, a lease queue or the revisions')
def s09_reads(cx):
    for nm in ('dispatchRead', 'dispatchReadOnly'):
        f = cx.fn(D + nm)
        seen = reach(cx, f)
        cx.need(len(seen) > 30, 'functions reachable from a read')
        for k in seen:
            g = cx.p.fn[k]
            bad = [x for b in [g.get('body')] + [i['e'] for i in g.get('inits', ())] for x in walk(b) if x.get('k') in ('call', 'ctor') and match(x.get('f') or '', WRITES)]
            for x in bad:
                cx.ob(False, nm, 'a read reaches %s through %s' % (x['f'].rsplit('::', 2)[-2] + '::' + x['f'].rsplit('::', 1)[1], way(cx, seen, k)), '%s:%s' % (g['file'], x.get('l')))
            cx.ob(True, nm, 'no write in ' + g['name'])
    f = cx.fn(D + 'dispatchReadOnly')
    for p in returns(cx.paths(f, opaque=('~RedisDispatcher::dispatchRead$', '~ArrayResponseBuilder::', '~Formatter::', '~Transaction::'))):
        cw = p.calls('~Transaction::containsWrites$')
        cx.ob(any(p.facts.entails(eq(c.ret, ZERO)) for c in cw), 'dispatchReadOnly', 'a transaction with writes is not run as a read', None, p)
    # a transaction run as a read gets no more than reads
    for g, node in callers(cx, '~RedisDispatcher::dispatchReadOnly$'):
        cx.ob(g['name'] == D + 'dispatchRead', short(g['name']), 'read-only transactions are served as reads', '%s:%s' % (g['file'], node.get('l')))
    for g, node in callers(cx, '~RedisDispatcher::dispatchWrite$'):
        cx.ob(g['name'] == D + 'dispatchReadWrite', short(g['name']), 'the write handler serves writes only', '%s:%s' % (g['file'], node.get('l')))
    f = cx.fn(D + 'dispatchReadWrite')
    for p in cx.paths(f, opaque=SM_OPQ, pure=('~RedisRequest::getCommandType$',)):
        for e in p.calls('~dispatchWrite$'):
            cx.ob(e.facts.entails(eq(('call', 'quarkdb::RedisRequest::getCommandType', P(f, 1)), ('e', 'quarkdb::CommandType::WRITE'))), 'dispatchReadWrite', 'the write handler serves writes only', e.where(), p)


@rule('S09', 'readonly', 'a read-only staging area refuses every change and is what reads are given')
def s09_readonly(cx):
    ro = this(A + 'readOnly')
    n = 0
    for f in cx.p.fn.values():
        if f.get('cls') != 'quarkdb::StagingArea' or f['name'] in (A + 'StagingArea', A + '~StagingArea'):
            continue
        s = 'StagingArea::' + short(f['name'])
        for p in cx.paths(f, opaque=('~StateMachine::commit',)):
            ch = [e for e in p.calls('~rocksdb::WriteBatch(WithIndex|Base)?::(Put|Delete|SingleDelete|Merge|DeleteRange)$') + p.calls('~StateMachine::commit(Transaction|Batch)$') + db_changes(p)]
            for e in ch:
                n += 1
                cx.ob(e.facts.entails(eq(ro, ZERO)), s, 'refused on a read-only staging area', e.where(), p)
    cx.need(n >= 5, 'changes through the staging area')
    for g in writers(cx, A + 'readOnly') + writers(cx, A + 'bulkLoad'):
        cx.ob(g['name'] == A + 'StagingArea', short(g['name']), 'what a staging area may do never changes', g['file'])
    # the convenience reads of the store
    m = 0
    for g in cx.p.fn.values():
        if not (g['name'].startswith(S) and g.get('body')) or any(x.get('k') == 'call' and x.get('f') == A + 'commit' for x in walk(g['body'])):
            continue
        made = [x for x in walk(g['body']) if x.get('k') in ('ctor', 'call') and x.get('f') == A + 'StagingArea']
        if not made:
            continue
        m += 1
        s = g['name'][len(S):]
        if not any(x.get('k') == 'call' and match(x.get('f') or '', ('~StagingArea::(put|del|singleDelete)$',)) for k in reach(cx, g) for x in walk(cx.p.fn[k].get('body'))):
            cx.ob(True, s, 'changes nothing')
            continue
        for p in cx.paths(g, opaque=SM_OPQ):
            for e in p.calls('~StagingArea::StagingArea$'):
                cx.ob(len(e.args) > 1 and not is_zero(e.args[1]) and p.facts.entails(ne(e.args[1], ZERO)), s, 'a function that commits nothing opens the store for reading', e.where(), p)
    cx.need(m >= 10, 'convenience reads')



@rule('S09', 'bulkload', 'bulk load starts on a new store, its mark goes away last, and only finishing ends it')
def s09_bulk(cx):
    MARK = ('s', '__in-bulkload')
    bulk = this(S + 'bulkLoad')

    def flag(v):
        if is_call(v, 'quarkdb::boolToString'):
            return v[2]
        return {('s', 'TRUE'): C(1), ('s', 'FALSE'): C(0)}.get(v)

    def puts(p):
        return [e for e in db_changes(p) if len(e.args) > 2 and e.args[1] == MARK]
    f = cx.fn(S + 'ensureBulkloadSanity')
    s = 'ensureBulkloadSanity'
    n = [0, 0]
    for p in cx.paths(f, pure=('quarkdb::boolToString',)):
        ps, gs = puts(p), p.calls('~rocksdb::DB::Get$')
        if p.outcome != 'return':
            continue
        if p.facts.entails(ne(P(f, 0), ZERO)):
            n[0] += 1
            cx.ob(len(ps) == 1 and flag(ps[0].args[2]) is not None and p.facts.eqv(flag(ps[0].args[2]), bulk) and isok(p.facts, ps[0].ret), s, 'a new store records whether it is being bulk loaded', None, p)
        else:
            n[1] += 1
            last = gs[-1] if gs else None
            good = last is not None and isok(p.facts, last.ret)
            text = [t for l in p.facts.all() if l[0] == 'eq' for t, k in l[1] if flag(t) is not None and is_zero(flag(t))]
            cx.ob(good and any(p.facts.eqv(outv(last, 2), t) for t in text), s, 'an existing store is opened only when no bulk load is unfinished', None, p)
            cx.ob(all(is_zero(flag(e.args[2]) or C(1)) and any(x.n < e.n and p.facts.entails(ne(('call', 'rocksdb::Status::IsNotFound', x.ret), ZERO)) for x in gs) for e in ps), s, 'the mark is added only where there is none', None, p)
    cx.ob(all(n), s, 'new and existing stores')
    f = cx.fn(S + 'finalizeBulkload')
    s = 'finalizeBulkload'
    m = 0
    for p in cx.paths(f, opaque=('~manualCompaction$', '~KeyDescriptorBuilder::'), pure=('quarkdb::boolToString',)):
        ps, b, c = puts(p), p.calls('~KeyDescriptorBuilder::KeyDescriptorBuilder$'), p.calls('~manualCompaction$')
        for e in ps:
            cx.ob(flag(e.args[2]) is not None and is_zero(flag(e.args[2])), s, 'the mark is taken away', e.where(), p)
            cx.ob(any(x.n < e.n for x in b), s, 'only after the key descriptions were built', e.where(), p)
            cx.ob(any(x.n < e.n and isok(e.facts, x.ret) for x in c), s, 'only after the compaction succeeded', e.where(), p)
        if p.outcome == 'return':
            m += 1
            cx.ob(len(ps) == 1 and isok(p.facts, ps[0].ret) and len(b) == 1, s, 'finished means described and unmarked', None, p)
    cx.ob(m > 0, s, 'finishes')
    for fk, g in cx.p.fn.items():
        for x in walk(g.get('body')):
            if x.get('k') == 'gv' and str(x.get('n', '')).endswith('kStateMachine_InBulkload') and g['name'].startswith(S):
                cx.ob(g['name'] in (S + 'ensureBulkloadSanity', S + 'finalizeBulkload'), short(g['name']), 'the mark is handled by opening and finishing only', g['file'])
    for g, node in callers(cx, '~StateMachine::finalizeBulkload$'):
        s = short(g['name'])
        cx.ob(g['name'] == 'quarkdb::Shard::dispatch', s, 'bulk load is finished by its command only', '%s:%s' % (g['file'], node.get('l')))
        k = 0
        cmd = ('e', 'quarkdb::RedisCommand::QUARKDB_BULKLOAD_FINALIZE')
        fq = cx.paths(g, opaque=('~quarkdb::(?!Shard::dispatch)',), pure=('~RedisRequest::(getCommand|getCommandType|size)$',))
        for p in fq:
            for e in p.calls('~StateMachine::finalizeBulkload$'):
                k += 1
                cx.ob(e.facts.entails(eq(this('quarkdb::Shard::mode'), ('e', 'quarkdb::Mode::bulkload'))), s, 'bulk load is finished only in bulk load mode', e.where(), p)
                cx.ob(any(x.n < e.n for x in p.calls('~stopAcceptingRequests$') + p.calls('~spinUntilNoRequestsInFlight$')), s, 'after the last request was served', e.where(), p)
        cx.ob(k > 0, s, 'finishes bulk load')
    f = cx.fn(S + 'StateMachine')
    s = 'StateMachine'
    dirs, opens = [], 0
    for p in cx.paths(f, opaque=('~StateMachine::', '~ParanoidManifestChecker::', '~ConsistencyScanner::', '~WriteStallWarner::', '~Timekeeper::', '~RequestCounter::', '~ExpirationEventCache::', '~directoryExists$')):
        for e in p.calls('~rocksdb::DB::Open$'):
            opens += 1
            d = [x for x in p.calls('~directoryExists$') if x.n < e.n]
            cx.ob(not possible(e.facts, ne(this_final(e, p, bulk, f), ZERO), *[ne(x.ret, ZERO) for x in d]) and d, s, 'bulk load opens only what does not exist yet', e.where(), p)
        if p.outcome == 'return':
            c = [x for x in p.calls('~ensureBulkloadSanity$')]
            o = [x for x in p.calls('~rocksdb::DB::Open$')]
            cx.ob(len(c) == 1 and o and c[0].n > o[0].n, s, 'every opening looks at the mark', None, p)
            d = p.calls('~directoryExists$')
            cx.ob(len(c) == 1 and len(d) >= 1 and all(is_zero(decide(fx, sub(c[0].args[0], ('op', '!', d[0].ret)))) or fx.eqv(c[0].args[0], ('op', '!', d[0].ret)) for fx in [p.facts]), s, 'a store is new when its directory did not exist', None, p)
    cx.need(opens, 'the store is opened')
    for g, node in callers(cx, '~ShardDirectory::getStateMachineForBulkload$'):
        for p in cx.paths(g, opaque=('~ShardDirectory::', '~StandaloneDispatcher::', '~Publisher::')):
            for e in p.calls('~getStateMachineForBulkload$'):
                cx.ob(e.facts.entails(ne(P(g, 1), ZERO)), short(g['name']), 'bulk load only when asked for', e.where(), p)


def this_final(e, p, bulk, f):
    """the bulk load member, or the argument it was set from"""
    w = [x for x in p.events if x.kind == 'write' and x.n < e.n and x.loc == thisloc(S + 'bulkLoad')]
    return w[-1].val if w else bulk


@rule('S11', 'handover', 'what a committed transaction recorded is handed to the publisher, after the commit')
def s11_handover(cx):
    f = cx.fn(D + 'dispatch', pred=lambda g: len(g['params']) == 2 and 'Transaction' in g['params'][0]['t'] and 'Connection' not in g['params'][0]['t'] and 'StagingArea' not in g['params'][0]['t'])
    s = 'dispatch(Transaction)'
    n = 0
    for p in returns(cx.paths(f, opaque=tuple(o for o in SM_OPQ if o != '~StagingArea::') + ('~RedisDispatcher::dispatch$', '~StagingArea::(commit|getRevisionTracker|StagingArea|~StagingArea)$', '~VersionedHashRevision'))):
        com, pub = p.calls('~StagingArea::commit$'), p.calls('~Publisher::schedulePublishing$')
        emp_ = [e for e in p.calls('~VersionedHashRevisionTracker::empty$')]
        for e in pub:
            n += 1
            cx.ob(len(com) == 1 and com[0].n < e.n, s, 'changes are published once they are committed', e.where(), p)
        if com:
            cx.ob(len(pub) == 1 or len(pub) == 0 and any(p.facts.entails(ne(e.ret, ZERO)) for e in emp_), s, 'every recorded change is published', None, p)
    cx.ob(n > 0, s, 'publishes')


@rule('S08', 'leaders', 'a new leadership re-anchors the running clock before anything is applied after it')
def s08_leaders(cx):
    f = cx.fn(D + 'dispatch', pred=lambda g: len(g['params']) == 2 and 'RedisRequest' in g['params'][0]['t'])
    s = 'dispatch(RedisRequest)'
    mark = ('s', 'JOURNAL_LEADERSHIP_MARKER')
    n = 0
    for p in returns(cx.paths(f, opaque=SM_OPQ[:-3] + ('~Formatter::', '~dispatchReadWriteAndCommit$', '~dispatchingError$', '~startsWith$'), pure=('~RedisRequest::getCommand(Type)?$', '~PinnedBuffer::', '~RedisRequest::operator', '~RedisRequest::at$'))):
        sync = p.calls('~StateMachine::hardSynchronizeDynamicClock$')
        if p.calls('~StateMachine::noop$'):
            lits = [l for l in p.facts.all() if any(t == mark for t, k in l[1])]
            yes = any(l[0] == 'eq' for l in lits)
            no = any(l[0] == 'ne' for l in lits)
            n += yes
            cx.ob(yes or no, s, 'leadership markers are told apart', None, p)
            cx.ob(bool(sync) == yes, s, 'the clock is synchronized for a leadership marker', None, p)
    cx.ob(n > 0, s, 'knows leadership markers')
