"""Raft journal: R01-R08."""
from qdb.common import *

J = 'quarkdb::RaftJournal::'
CLS = 'quarkdb::RaftJournal'
RT = 'quarkdb::RaftEntry::term'
# opened on an empty or abandoned directory, or test-only; covered by R07
SKIP = ('obliterate', 'ObliterateAndReinitializeJournal', 'simulateDataLoss', '<ctor>', 'RaftJournal')


def K(cx, n):
    return const_str(cx, 'quarkdb::KeyConstants::kJournal_' + n)


def inv(e, st):
    """class invariants on entry (established by R07, preserved by R02-R04):
    0 <= logStart <= commitIndex < logSize"""
    f = st.facts
    for t in (ge(this(J + 'logStart'), ZERO), le(this(J + 'logStart'), this(J + 'commitIndex')), lt(this(J + 'commitIndex'), this(J + 'logSize'))):
        f = f.with_(t)[0]
    st.facts = f


# which lock protects which member: relied on when another lock is taken, and proved by U01
GUARDS = {J + f: J + 'contentMutex' for f in ('logSize', 'logStart', 'termOfLastEntry', 'membershipEpoch', 'members', 'clusterID', 'db')}
# a single atomic load decides; any value it may have had is a legal policy in effect
GUARDS[J + 'fsyncPolicy'] = '*'


def all_paths(cx):
    for f in public_methods(cx, CLS, SKIP):
        for p in cx.paths(f, setup=inv, guards=GUARDS):
            yield f, p


def writes_of(path, field):
    return [e for e in path.events if e.kind == 'write' and e.loc[0] == 'f' and e.loc[2] == field and e.loc[1] == ('d', ('this',))]


def journal_effects(path):
    """writes to journal members and to the database"""
    return [e for e in path.events if e.kind == 'write' and any(x.startswith(J) for x in loc_fields(e.loc))] + db_writes(path)


def entry_key(v):
    """the log index a storage key denotes, or None"""
    if is_call(v, 'encodeEntryKey', 'quarkdb::encodeEntryKey', 'quarkdb::encodeEntryKey#1', 'encodeEntryKey#1'):
        return v[2]
    if is_call(v, 'quarkdb::StaticBuffer::toView'):
        return entry_key(v[2])
    if v[0] == 'cat' and len(v[1]) == 2 and v[1][0] == ('s', 'E') and is_call(v[1][1], 'quarkdb::intToBinaryString'):
        return v[1][1][2]
    return None


def write_before(path, ev, pred):
    """a DB::Write event before ev, known successful at ev, whose batch satisfies pred"""
    for w in db_writes(path):
        if w.n < ev.n and w.name.endswith('::Write') and isok(ev.facts, w.ret) and pred(batch_ops(path, w), w):
            return w
    return None


# ------------------------------------------------------------------ R01
@rule('R01', 'term-write', 'every assignment to the current term, in every public operation, is under the term lock, not below the old term, and preceded by a successful atomic write of term and vote')
def r01_term(cx):
    T, V = K(cx, 'CurrentTerm'), K(cx, 'VotedFor')
    for f, p in all_paths(cx):
        s = short(f['name'])
        for e in writes_of(p, J + 'currentTerm'):
            cx.ob(e.facts.entails(le(this(J + 'currentTerm'), e.val)) and e.facts.eqv(e.old, this(J + 'currentTerm')), s, 'the new term is known not to be below the recorded one', e.where(), p)
            cx.ob(held(e, J + 'currentTermMutex'), s, 'the term is changed under its lock', e.where(), p)

            def pred(ops, w):
                t, v = put_of(ops, T), put_of(ops, V)
                return t is not None and v is not None and e.facts.eqv(t, int_bin(e.val)) and is_call(v, 'quarkdb::RaftServer::toString')
            w = write_before(p, e, pred)
            cx.ob(w is not None, s, 'term and vote are written in one successful batch before the term becomes visible', e.where(), p)
            vs = [x for x in writes_of(p, J + 'votedFor')]
            cx.ob(len(vs) == 1 and w is not None and put_of(batch_ops(p, w), V) == ('call', 'quarkdb::RaftServer::toString', vs[0].val), s, 'the vote kept in memory is the one written', e.where(), p)


@rule('R01', 'vote-once', 'every assignment to the recorded vote happens in a new term or replaces an empty vote, after the durable write')
def r01_vote(cx):
    V = K(cx, 'VotedFor')
    for f, p in all_paths(cx):
        s = short(f['name'])
        for e in writes_of(p, J + 'votedFor'):
            tw = writes_of(p, J + 'currentTerm')
            newterm = tw and e.facts.entails(gt(tw[0].val, this(J + 'currentTerm')))
            empty = e.facts.entails(ne(('call', 'quarkdb::RaftServer::empty', this(J + 'votedFor')), ZERO))
            cx.ob(newterm or empty, s, 'a non-empty vote is only replaced when the term grows', e.where(), p)
            cx.ob(write_before(p, e, lambda ops, w: put_of(ops, V) is not None and len(deletes(ops)) == 0) is not None, s, 'the vote is written before it becomes visible', e.where(), p)
            cx.ob(held(e, J + 'currentTermMutex'), s, 'the vote is changed under the term lock', e.where(), p)
    for f in public_methods(cx, CLS, SKIP):
        if short(f['name']).endswith('::getVotedFor'):
            for p in cx.paths(f):
                cx.ob(p.val == this(J + 'votedFor'), 'RaftJournal::getVotedFor', 'the reported vote is the recorded one', f['file'], p)
        if short(f['name']).endswith('::getCurrentTerm'):
            for p in cx.paths(f):
                cx.ob(p.val == this(J + 'currentTerm'), 'RaftJournal::getCurrentTerm', 'the reported term is the recorded one', f['file'], p)


@rule('R01', 'accept-iff', 'setCurrentTerm accepts exactly when the term is newer, or equal with no vote yet; a refusal has no effect')
def r01_iff(cx):
    f = cx.fn('quarkdb::RaftJournal::setCurrentTerm')
    term = P(f, 0)
    cur = this(J + 'currentTerm')
    noVote = ne(('call', 'quarkdb::RaftServer::empty', this(J + 'votedFor')), ZERO)
    acc = OR(gt(term, cur), AND(eq(term, cur), noVote))
    n = {True: 0, False: 0}
    for p, b, fx in bool_cases(cx.paths(f, setup=inv, guards=GUARDS)):
        n[b] += 1
        s = 'RaftJournal::setCurrentTerm'
        if b:
            cx.ob(fx.entails(acc), s, 'an accepted change is to a newer term or fills an empty vote', None, p)
            cx.ob(len(writes_of(p, J + 'currentTerm')) == 1 and writes_of(p, J + 'currentTerm')[0].val == term, s, 'an accepted change records the requested term', None, p)
            cx.ob([w.val for w in writes_of(p, J + 'votedFor')] == [P(f, 1)], s, 'an accepted change records the requested vote', None, p)
        else:
            cx.ob(fx.entails(tneg(acc)), s, 'a change that must be accepted is not refused', None, p)
            cx.ob(not journal_effects(p), s, 'a refused change writes nothing', None, p)
    cx.ob(n[True] and n[False], 'RaftJournal::setCurrentTerm', 'both outcomes exist')


@rule('R01', 'only-writer', 'no other journal operation puts the term or vote keys')
def r01_keys(cx):
    T, V = K(cx, 'CurrentTerm'), K(cx, 'VotedFor')
    cx.ob(T != V, 'KeyConstants', 'term and vote have different keys')
    for f, p in all_paths(cx):
        for w in db_writes(p):
            if w.name.endswith('::Write'):
                ops = batch_ops(p, w)
                has = [k for k in (T, V) if put_of(ops, k) is not None]
                if has:
                    cx.ob(len(has) == 2, short(f['name']), 'term and vote are always put together', w.where(), p)
                    cx.ob(held(w, J + 'currentTermMutex'), short(f['name']), 'term and vote are put under the term lock', w.where(), p)
            else:
                cx.ob(len(w.args) < 2 or w.args[1] not in (('s', T), ('s', V)), short(f['name']), 'term and vote are never put on their own', w.where(), p)


# ------------------------------------------------------------------ R02
def append_writes(p):
    return [e for e in writes_of(p, J + 'logSize') if e.facts.eqv(e.val, add(this(J + 'logSize'), C(1)))]


@rule('R02', 'grow-by-one', 'every assignment that lengthens the log, in every public operation, adds exactly one entry and follows a successful batch that holds the entry at the old end and the new length')
def r02_grow(cx):
    LS = K(cx, 'LogSize')
    n = 0
    for f, p in all_paths(cx):
        s = short(f['name'])
        for e in writes_of(p, J + 'logSize'):
            up = e.facts.eqv(e.val, add(this(J + 'logSize'), C(1)))
            down = e.facts.entails(lt(e.val, this(J + 'logSize')))
            same = e.facts.eqv(e.val, this(J + 'logSize'))
            cx.ob(up or down or same, s, 'the log length only grows by one or shrinks', e.where(), p)
            if not up:
                continue
            n += 1
            ent = []

            def pred(ops, w):
                v = put_of(ops, LS)
                if v is None or not e.facts.eqv(v, int_bin(e.val)):
                    return False
                es = [o for o in puts(ops) if entry_key(o.args[0]) is not None]
                if len(es) != 1 or not e.facts.eqv(entry_key(es[0].args[0]), this(J + 'logSize')) or not is_call(es[0].args[1], 'quarkdb::RaftEntry::serialize'):
                    return False
                ent.append(es[0].args[1][2])
                return True
            w = write_before(p, e, pred)
            cx.ob(w is not None, s, 'the entry at the old end and the new length are in one successful batch before the log is longer', e.where(), p)
            if w is None:
                continue
            term = Engine.project(ent[0], RT)
            cx.ob(w.facts.entails(le(term, this(J + 'currentTerm'))), s, 'the entry term is not newer than the current term', w.where(), p)
            cx.ob(w.facts.entails(ge(term, this(J + 'termOfLastEntry'))), s, 'the entry term is not older than the last one', w.where(), p)
            cx.ob(held(w, J + 'contentMutex') and held(e, J + 'contentMutex'), s, 'the log is extended under its lock', e.where(), p)
            tl = [x for x in writes_of(p, J + 'termOfLastEntry') if x.n > e.n]
            if p.outcome == 'return':
                cx.ob(len(tl) == 1 and p.facts.eqv(tl[0].val, term), s, 'the term of the last entry follows the log', e.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'some operation extends the log')


@rule('R02', 'append-iff', 'append accepts exactly an entry at the end with last term <= term <= current term; a refusal has no effect')
def r02_iff(cx):
    f = cx.fn('quarkdb::RaftJournal::append')
    idx, ent = P(f, 0), P(f, 1)
    term = Engine.project(ent, RT)
    acc = AND(eq(idx, this(J + 'logSize')), le(term, this(J + 'currentTerm')), ge(term, this(J + 'termOfLastEntry')))
    n = {True: 0, False: 0}
    for p, b, fx in bool_cases(cx.paths(f, setup=inv, guards=GUARDS)):
        n[b] += 1
        s = 'RaftJournal::append'
        if b:
            cx.ob(fx.entails(acc), s, 'an accepted entry is at the end with an admissible term', None, p)
            cx.ob(len(append_writes(p)) == 1, s, 'an accepted entry lengthens the log', None, p)
        else:
            cx.ob(fx.entails(tneg(acc)), s, 'an admissible entry is not refused', None, p)
            cx.ob(not journal_effects(p), s, 'a refused entry leaves no trace', None, p)
    cx.ob(n[True] and n[False], 'RaftJournal::append', 'both outcomes exist')


@rule('R02', 'length-key', 'the stored log length is only put in batches that also add or remove entries, and equals the length kept in memory')
def r02_len(cx):
    LS = K(cx, 'LogSize')
    for f, p in all_paths(cx):
        s = short(f['name'])
        for w in db_writes(p):
            if w.name.endswith('::Write'):
                ops = batch_ops(p, w)
                v = put_of(ops, LS)
                if v is None:
                    cx.ob(not [o for o in puts(ops) if entry_key(o.args[0]) is not None], s, 'an entry is only stored together with the new length', w.where(), p)
                    continue
                cx.ob(any(entry_key(o.args[0]) is not None for o in ops), s, 'the length is only stored together with entries', w.where(), p)
                if p.outcome == 'return':
                    aft = [x for x in writes_of(p, J + 'logSize') if x.n > w.n]
                    cx.ob(len(aft) == 1 and p.facts.eqv(v, int_bin(aft[0].val)), s, 'the length reported is the length stored', w.where(), p)
            else:
                cx.ob(len(w.args) < 2 or (w.args[1] != ('s', LS) and entry_key(w.args[1]) is None), s, 'length and entries are never put on their own', w.where(), p)
    for f in public_methods(cx, CLS, SKIP):
        if short(f['name']).endswith('::getLogSize'):
            for p in cx.paths(f):
                cx.ob(p.val == this(J + 'logSize'), 'RaftJournal::getLogSize', 'the reported length is the recorded one', f['file'], p)


# ------------------------------------------------------------------ R03
@rule('R03', 'commit-write', 'every assignment to the commit index is under its lock, not below the old one, inside the log, durable first, and wakes the waiters')
def r03_write(cx):
    CI = K(cx, 'CommitIndex')
    n = 0
    for f, p in all_paths(cx):
        s = short(f['name'])
        for e in writes_of(p, J + 'commitIndex'):
            n += 1
            cx.ob(e.facts.entails(ge(e.val, this(J + 'commitIndex'))) and e.old == this(J + 'commitIndex'), s, 'the commit index does not go back', e.where(), p)
            cx.ob(e.facts.entails(lt(e.val, this(J + 'logSize'))), s, 'the commit index points inside the log', e.where(), p)
            cx.ob(held(e, J + 'commitIndexMutex'), s, 'the commit index is changed under its lock', e.where(), p)
            d = [w for w in db_writes(p) if w.n < e.n and isok(e.facts, w.ret) and
                 ((w.name.endswith('::Put') and w.args[1] == ('s', CI) and e.facts.eqv(w.args[2], int_bin(e.val))) or
                  (w.name.endswith('::Write') and put_of(batch_ops(p, w), CI) == int_bin(e.val)))]
            cx.ob(bool(d), s, 'the commit index is stored successfully before it becomes visible', e.where(), p)
            if p.outcome == 'return':
                nt = [c for c in p.calls('std::condition_variable::notify_all') if c.n > e.n and last_field(c.objloc) == J + 'commitNotifier']
                cx.ob(bool(nt), s, 'waiters are woken after the commit index changed', e.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'some operation moves the commit index')


@rule('R03', 'commit-iff', 'setCommitIndex refuses exactly an older index, stops the node on an index past the end, and otherwise records it')
def r03_iff(cx):
    f = cx.fn('quarkdb::RaftJournal::setCommitIndex')
    v, ci, ls = P(f, 0), this(J + 'commitIndex'), this(J + 'logSize')
    s = 'RaftJournal::setCommitIndex'
    for p in cx.paths(f, setup=inv, guards=GUARDS):
        if p.outcome != 'return':
            if not any(x for x in db_writes(p)):
                cx.ob(p.facts.entails(ge(v, ls)), s, 'only an index past the end stops the node', None, p)
                cx.ob(not journal_effects(p), s, 'an index past the end changes nothing', None, p)
            continue
        for b, fx in p.ret_cases():
            if b:
                cx.ob(fx.entails(AND(ge(v, ci), lt(v, ls))), s, 'an accepted index lies between the old one and the end', None, p)
                w = writes_of(p, J + 'commitIndex')
                cx.ob(fx.eqv(v, ci) or (len(w) == 1 and w[0].val == v), s, 'an accepted index is recorded', None, p)
            else:
                cx.ob(fx.entails(lt(v, ci)), s, 'a newer index inside the log is not refused', None, p)
                cx.ob(not journal_effects(p), s, 'a refused index changes nothing', None, p)


@rule('R03', 'commit-key', 'the stored commit index is only put where the index in memory follows')
def r03_key(cx):
    CI = K(cx, 'CommitIndex')
    for f, p in all_paths(cx):
        for w in db_writes(p):
            v = w.args[2] if w.name.endswith('::Put') and len(w.args) > 2 and w.args[1] == ('s', CI) else put_of(batch_ops(p, w), CI) if w.name.endswith('::Write') else None
            if v is None:
                continue
            s = short(f['name'])
            cx.ob(w.facts.entails(ge(v[2], this(J + 'commitIndex'))) if is_call(v, 'quarkdb::intToBinaryString') else False, s, 'the stored commit index does not go back', w.where(), p)
            cx.ob(w.facts.entails(lt(v[2], this(J + 'logSize'))) if is_call(v, 'quarkdb::intToBinaryString') else False, s, 'the stored commit index points inside the log', w.where(), p)
            if p.outcome == 'return':
                cx.ob(any(x.n > w.n and p.facts.eqv(int_bin(x.val), v) for x in writes_of(p, J + 'commitIndex')), s, 'memory follows the stored commit index', w.where(), p)


@rule('R03', 'wait', 'a waiter checks the commit index under its lock before sleeping on the notifier')
def r03_wait(cx):
    f = cx.fn('quarkdb::RaftJournal::waitForCommits')
    cur = P(f, 0)
    s = 'RaftJournal::waitForCommits'
    for p in cx.paths(f, setup=inv, guards=GUARDS):
        ws = p.calls('~condition_variable::wait')
        for w in ws:
            cx.ob(held(w, J + 'commitIndexMutex') and last_field(w.objloc) == J + 'commitNotifier', s, 'sleeps on the commit notifier with its lock', w.where(), p)
            cx.ob(w.facts.entails(ge(cur, this(J + 'commitIndex'))) or len(w.args) > 1, s, 'sleeps only while nothing newer is committed', w.where(), p)
        if not ws:
            cx.ob(p.facts.entails(lt(cur, this(J + 'commitIndex'))), s, 'returns at once only when something newer is committed', None, p)


# ------------------------------------------------------------------ R04
@rule('R04', 'delete-guard', 'every removal of a log entry, in every public operation, is either above the commit index or below the new log start which is at most the commit index')
def r04_guard(cx):
    n = 0
    for f, p in all_paths(cx):
        s = short(f['name'])
        for w in db_writes(p):
            if not w.name.endswith('::Write'):
                if 'Delete' in w.name or 'Merge' in w.name or 'Ingest' in w.name:
                    cx.ob(False, s, 'entries are only removed through atomic batches', w.where(), p)
                continue
            for o in deletes(batch_ops(p, w)):
                n += 1
                i = entry_key(o.args[0])
                cx.ob(i is not None, s, 'only log entries are ever deleted', o.where(), p)
                if i is None:
                    continue
                if o.name.endswith('DeleteRange'):
                    h = entry_key(o.args[1])
                    good = h is not None and (o.facts.entails(gt(i, this(J + 'commitIndex'))) or o.facts.entails(le(h, this(J + 'commitIndex'))))
                else:
                    good = o.facts.entails(gt(i, this(J + 'commitIndex'))) or o.facts.entails(lt(i, this(J + 'commitIndex')))
                cx.ob(good, s, 'a committed entry is not removed from the tail, nor an uncommitted one from the head', o.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'some operation removes entries')


def covered(p, ops, lo, hi):
    for o in deletes(ops):
        if o.name.endswith('DeleteRange'):
            if o.facts.eqv(entry_key(o.args[0]) or NULL, lo) and o.facts.eqv(entry_key(o.args[1]) or NULL, hi):
                return True
        elif entry_key(o.args[0]) is not None and covers(p, o, entry_key(o.args[0]), lo, hi):
            return True
    return False


@rule('R04', 'truncate', 'shortening the log is above the commit index, under the log lock, and the same successful batch deletes every entry from the new end to the old one and stores the new length')
def r04_trunc(cx):
    LS = K(cx, 'LogSize')
    n = 0
    for f, p in all_paths(cx):
        s = short(f['name'])
        for e in writes_of(p, J + 'logSize'):
            if e.facts.entails(ge(e.val, this(J + 'logSize'))):
                continue
            n += 1
            cx.ob(e.facts.entails(gt(e.val, this(J + 'commitIndex'))), s, 'the log is only shortened above the commit index', e.where(), p)
            cx.ob(held(e, J + 'contentMutex'), s, 'the log is shortened under its lock', e.where(), p)
            w = write_before(p, e, lambda ops, w: put_of(ops, LS) is not None and e.facts.eqv(put_of(ops, LS), int_bin(e.val)))
            cx.ob(w is not None, s, 'the new length is stored successfully before it becomes visible', e.where(), p)
            if w is None:
                continue
            ops = batch_ops(p, w)
            cx.ob(covered(p, ops, e.val, this(J + 'logSize')), s, 'every entry from the new end to the old end is deleted in the same batch', w.where(), p)
            if p.outcome == 'return':
                tl = [x for x in writes_of(p, J + 'termOfLastEntry') if x.n > e.n]
                good = len(tl) == 1 and tl[0].val[0] == '.' and tl[0].val[2] == RT and is_call(tl[0].val[1], 'quarkdb::RaftEntry::deserialize#0')
                if good:
                    out = tl[0].val[1][2]
                    good = out[0] == 'out' and any(c.n == out[1] and c.name == 'rocksdb::DB::Get' and p.facts.eqv(entry_key(c.args[1]) or NULL, sub(e.val, C(1))) for c in p.calls('rocksdb::DB::Get'))
                cx.ob(good, s, 'the term of the last entry is re-read from the new last entry', e.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'some operation shortens the log')


@rule('R04', 'remove-iff', 'removeEntries refuses without effect exactly when there is nothing from that position on, and stops the node on a committed position')
def r04_iff(cx):
    f = cx.fn('quarkdb::RaftJournal::removeEntries')
    frm, ls, ci = P(f, 0), this(J + 'logSize'), this(J + 'commitIndex')
    s = 'RaftJournal::removeEntries'
    for p in cx.paths(f, setup=inv, guards=GUARDS):
        if p.outcome != 'return':
            if not db_writes(p):
                if p.calls('rocksdb::DB::Get') and any(c.name.endswith('::Delete') for c in p.calls('~WriteBatch')):
                    continue       # the previous membership cannot be read
                cx.ob(p.facts.entails(le(frm, ci)) or failed_status(p), s, 'only a committed position or a storage failure stops the node', None, p)
            continue
        for b, fx in p.ret_cases():
            if b:
                cx.ob(fx.entails(AND(lt(frm, ls), gt(frm, ci))), s, 'a successful removal is above the commit index and inside the log', None, p)
                cx.ob(len([e for e in writes_of(p, J + 'logSize') if fx.eqv(e.val, frm)]) == 1, s, 'a successful removal shortens the log to the given position', None, p)
            else:
                cx.ob(fx.entails(ge(frm, ls)), s, 'a removal inside the uncommitted tail is not refused', None, p)
                cx.ob(not journal_effects(p), s, 'a refused removal changes nothing', None, p)


@rule('R04', 'trim', 'moving the log start forward is to at most the commit index, and the same successful batch deletes every entry up to it and stores the new start')
def r04_trim(cx):
    LST = K(cx, 'LogStart')
    n = 0
    for f, p in all_paths(cx):
        s = short(f['name'])
        for e in writes_of(p, J + 'logStart'):
            n += 1
            cx.ob(e.facts.entails(AND(gt(e.val, this(J + 'logStart')), le(e.val, this(J + 'commitIndex')))), s, 'the log start moves forward to at most the commit index', e.where(), p)
            w = write_before(p, e, lambda ops, w: put_of(ops, LST) is not None and e.facts.eqv(put_of(ops, LST), int_bin(e.val)))
            cx.ob(w is not None, s, 'the new start is stored successfully before it becomes visible', e.where(), p)
            if w is not None:
                cx.ob(covered(p, batch_ops(p, w), this(J + 'logStart'), e.val), s, 'exactly the entries before the new start are deleted in the same batch', w.where(), p)
        if short(f['name']).endswith('trimUntil') and p.outcome == 'return' and not writes_of(p, J + 'logStart'):
            cx.ob(p.facts.entails(le(P(f, 0), this(J + 'logStart'))) and not journal_effects(p), s, 'nothing happens exactly when there is nothing to trim', None, p)
        for w in db_writes(p):
            if w.name.endswith('::Write'):
                ops = batch_ops(p, w)
                if put_of(ops, LST) is not None and p.outcome == 'return':
                    cx.ob(any(x.n > w.n and p.facts.eqv(int_bin(x.val), put_of(ops, LST)) for x in writes_of(p, J + 'logStart')), s, 'memory follows the stored log start', w.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'some operation trims the log')


# ------------------------------------------------------------------ R05
@rule('R05', 'same-batch', 'a membership change is put in the same batch as the log entry that carries it, with its epoch and both previous values')
def r05_batch(cx):
    M, E, PM, PE = K(cx, 'Members'), K(cx, 'MembershipEpoch'), K(cx, 'PreviousMembers'), K(cx, 'PreviousMembershipEpoch')
    cx.ob(len({M, E, PM, PE}) == 4, 'KeyConstants', 'membership keys are distinct')
    n = 0
    for f, p in all_paths(cx):
        s = short(f['name'])
        for w in db_writes(p):
            if not w.name.endswith('::Write'):
                cx.ob(len(w.args) < 2 or w.args[1] not in [('s', k) for k in (M, E, PM, PE)], s, 'membership is never put on its own', w.where(), p)
                continue
            ops = batch_ops(p, w)
            if not any(put_of(ops, k) is not None for k in (M, E, PM, PE)):
                continue
            n += 1
            m, e, pm, pe = [put_of(ops, k) for k in (M, E, PM, PE)]
            es = [o for o in puts(ops) if entry_key(o.args[0]) is not None]
            if es:
                cx.ob(len(es) == 1 and w.facts.eqv(e or NULL, int_bin(entry_key(es[0].args[0]))), s, 'the new epoch is the index of the entry stored in the same batch', w.where(), p)
                cx.ob(pm == ('call', 'quarkdb::RaftMembers::toString', this(J + 'members')), s, 'the previous members are kept in the same batch', w.where(), p)
                cx.ob(pe == int_bin(this(J + 'membershipEpoch')), s, 'the previous epoch is kept in the same batch', w.where(), p)
                ent = es[0].args[1][2] if is_call(es[0].args[1], 'quarkdb::RaftEntry::serialize') else NULL
                cx.ob(m is not None and arg_of(ent, 1) is not None and w.facts.eqv(m, arg_of(ent, 1)), s, 'the new members are those named by the entry', w.where(), p)
                cid = arg_of(ent, 2)
                cx.ob(cid is not None and w.facts.eqv(cid, this(J + 'clusterID')), s, 'the change is for this cluster', w.where(), p)
                if p.outcome == 'return':
                    em = writes_of(p, J + 'membershipEpoch')
                    cx.ob(len(em) == 1 and p.facts.eqv(int_bin(em[0].val), e), s, 'the epoch in effect is the stored one', w.where(), p)
                    cx.ob(members_written(p, m), s, 'the members in effect are the stored ones', w.where(), p)
            else:
                # rollback
                cx.ob(bool(deletes(ops)), s, 'membership without an entry only changes when entries are removed', w.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'some operation changes membership')


def arg_of(ent, i):
    """i-th argument of the request of an entry value"""
    if ent is None:
        return None
    c = Engine.project(Engine.project(ent, 'quarkdb::RaftEntry::request'), 'quarkdb::RedisRequest::contents')
    if c[0] == 'mut' or c[0] == 'ctor':
        ms, base = muts(c)
        ms = [a[0] for m, a in ms if m.endswith('back')]
        return ms[i] if i < len(ms) else None
    return Engine.index(c, C(i))


def members_written(p, m):
    for e in p.calls('quarkdb::RaftMembers::RaftMembers'):
        if len(e.args) == 1 and p.facts.eqv(e.args[0], m):
            return any(x.kind == 'write' and J + 'members' in loc_fields(x.loc) and x.n > e.n for x in p.events)
    return any(x.val == ('ctor', 'quarkdb::RaftMembers', (m,)) for x in writes_of(p, J + 'members'))


@rule('R05', 'serialized', 'membership operations append only when the previous change is committed, and otherwise refuse without effect')
def r05_serial(cx):
    n = 0
    for op in ('addObserver', 'removeMember', 'promoteObserver', 'demoteToObserver'):
        f = cx.fn(J + op)
        s = 'RaftJournal::' + op
        for p in cx.paths(f, setup=inv, guards=GUARDS, opaque=('quarkdb::RaftMembers::addObserver', 'quarkdb::RaftMembers::removeMember', 'quarkdb::RaftMembers::promoteObserver', 'quarkdb::RaftMembers::demoteToObserver')):
            for w in db_writes(p):
                n += 1
                cx.ob(w.facts.entails(ge(this(J + 'commitIndex'), this(J + 'membershipEpoch'))), s, 'a change is only appended once the previous one is committed', w.where(), p)
                cx.ob(held(w, J + 'contentMutex'), s, 'check and append are under one lock', w.where(), p)
            if p.outcome == 'return':
                for b, fx in p.ret_cases():
                    if b:
                        cx.ob(len(append_writes(p)) == 1, s, 'an accepted change is in the log', None, p)
                        cx.ob(any(put_of(batch_ops(p, w), K(cx, 'Members')) is not None for w in db_writes(p)), s, 'an accepted change is in effect', None, p)
                    else:
                        cx.ob(not journal_effects(p), s, 'a refused change leaves no trace', None, p)
                        mop = [c for c in p.calls('~RaftMembers::' + op + '$')]
                        cx.ob(fx.entails(lt(this(J + 'commitIndex'), this(J + 'membershipEpoch'))) or any(fx.entails(eq(c.ret, ZERO)) for c in mop) or fx.entails(gt(P(f, 0), this(J + 'currentTerm'))) or fx.entails(lt(P(f, 0), this(J + 'termOfLastEntry'))), s, 'a change is refused for an uncommitted change, an impossible step or another term', None, p)
    cx.ob(n > 0, 'RaftJournal', 'membership operations write')


@rule('R05', 'rollback', 'removing the entry of an uncommitted change restores the previous members and epoch in the same batch; removing later entries does not')
def r05_roll(cx):
    M, E, PM, PE = K(cx, 'Members'), K(cx, 'MembershipEpoch'), K(cx, 'PreviousMembers'), K(cx, 'PreviousMembershipEpoch')
    n = 0
    for f, p in all_paths(cx):
        s = short(f['name'])
        for e in writes_of(p, J + 'logSize'):
            if e.facts.entails(ge(e.val, this(J + 'logSize'))):
                continue
            w = [x for x in db_writes(p) if x.n < e.n and x.name.endswith('::Write')]
            if not w:
                cx.ob(False, s, 'the log is shortened by a batch', e.where(), p)
                continue
            w = w[-1]
            ops = batch_ops(p, w)
            if e.facts.entails(gt(e.val, this(J + 'membershipEpoch'))):
                cx.ob(put_of(ops, M) is None and put_of(ops, E) is None and not writes_of(p, J + 'membershipEpoch'), s, 'membership stays when its entry stays', w.where(), p)
                continue
            cx.ob(e.facts.entails(le(e.val, this(J + 'membershipEpoch'))), s, 'whether the entry of the current membership goes away is decided', e.where(), p)
            n += 1
            m, ep = put_of(ops, M), put_of(ops, E)

            def stored(v, key):
                """v is what was read under key"""
                return any(c.name == 'rocksdb::DB::Get' and c.args[1] == ('s', key) and v is not None and ('out', c.n) == v[:2] and isok(w.facts, c.ret) for c in p.calls('rocksdb::DB::Get'))
            back = ep[2] if is_call(ep or NULL, 'quarkdb::intToBinaryString') else ep
            cx.ob(back is not None and is_call(back, 'quarkdb::binaryStringToInt') and stored(back[2], PE), s, 'the previous epoch is restored in the batch that removes the entry', w.where(), p)
            cx.ob(stored(m, PM), s, 'the previous members are restored in the batch that removes the entry', w.where(), p)
            em = writes_of(p, J + 'membershipEpoch')
            cx.ob(len(em) == 1 and em[0].val == back, s, 'the epoch in effect is the restored one', w.where(), p)
            cx.ob(members_written(p, m), s, 'the members in effect are the restored ones', w.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'some removal rolls membership back')


# ------------------------------------------------------------------ R06
ALW, ASY, IMP = ('e', 'quarkdb::FsyncPolicy::kAlways'), ('e', 'quarkdb::FsyncPolicy::kAsync'), ('e', 'quarkdb::FsyncPolicy::kSyncImportantUpdates')


def sync_of(w):
    return Engine.project(w.args[0], 'rocksdb::WriteOptions::sync')


@rule('R06', 'sync-flag', 'at every batch write of the journal the sync option is decided by the policy: always -> synced, async -> not, important -> synced for term, vote, membership and leadership entries')
def r06_sync(cx):
    T, V, M = K(cx, 'CurrentTerm'), K(cx, 'VotedFor'), K(cx, 'Members')
    pol = this(J + 'fsyncPolicy')
    n = 0
    seen = set()
    for f, p in all_paths(cx):
        s = short(f['name'])
        for w in db_writes(p):
            if not w.name.endswith('::Write'):
                continue
            n += 1
            t = truth(sync_of(w))
            ops = batch_ops(p, w)
            important = put_of(ops, T) is not None or (put_of(ops, M) is not None and not deletes(ops)) or s.endswith('appendLeadershipMarker')
            fa = w.facts
            for v in (ALW, ASY, IMP):
                if p.outcome == 'return' and fa.entails(eq(pol, v)):
                    seen.add(v)
            if fa.entails(eq(pol, ALW)):
                cx.ob(fa.entails(t), s, "policy 'always' syncs this write", w.where(), p)
            elif fa.entails(eq(pol, ASY)):
                cx.ob(fa.entails(tneg(t)), s, "policy 'async' does not sync this write", w.where(), p)
            else:
                cx.ob(fa.entails(eq(pol, IMP)) or fa.entails(AND(ne(pol, ALW), ne(pol, ASY))), s, 'the policy is consulted before this write', w.where(), p)
                if important:
                    cx.ob(fa.entails(t), s, "policy 'sync-important-updates' syncs this write", w.where(), p)
                elif s == 'RaftJournal::append' and put_of(ops, M) is None:
                    imp = ('p', f['params'][2]['n'], 2)
                    if fa.entails(ne(imp, ZERO)):
                        cx.ob(fa.entails(t), s, 'an entry declared important is synced', w.where(), p)
    cx.ob(n > 0, 'RaftJournal', 'the journal writes batches')
    for v in (ALW, ASY, IMP):
        cx.ob(v in seen, 'RaftJournal', 'writing succeeds under policy ' + v[1].split('::')[-1])


@rule('R06', 'policy-change', 'changing the policy stores it before it takes effect, and it is reported as in effect')
def r06_change(cx):
    FP = K(cx, 'FsyncPolicy')
    f = cx.fn(J + 'setFsyncPolicy')
    pol = P(f, 0)
    s = 'RaftJournal::setFsyncPolicy'
    for p in cx.paths(f):
        if p.outcome != 'return':
            cx.ob(not writes_of(p, J + 'fsyncPolicy'), s, 'a policy that could not be stored is not in effect', None, p)
            continue
        ws = writes_of(p, J + 'fsyncPolicy')
        if not ws:
            cx.ob(p.facts.eqv(pol, this(J + 'fsyncPolicy')), s, 'nothing changes only when the policy is already in effect', None, p)
        for e in ws:
            cx.ob(e.val == pol, s, 'the policy in effect is the requested one', e.where(), p)
            cx.ob(any(w.n < e.n and w.args[1] == ('s', FP) and w.args[2] == ('call', 'quarkdb::fsyncPolicyToString', pol) and isok(e.facts, w.ret) for w in p.calls('rocksdb::DB::Put')), s, 'the policy is stored before it takes effect', e.where(), p)
    g = cx.fn(J + 'getFsyncPolicy')
    for p in cx.paths(g):
        cx.ob(p.val == this(J + 'fsyncPolicy'), 'RaftJournal::getFsyncPolicy', 'the reported policy is the one in effect', g['file'], p)
    for f2, p in all_paths(cx):
        for e in writes_of(p, J + 'fsyncPolicy'):
            cx.ob(f2['key'] == f['key'], short(f2['name']), 'only the policy operation changes the policy', e.where(), p)


@rule('R06', 'policy-names', 'policy names and policy values are inverse tables over every policy')
def r06_names(cx):
    to = cx.fn('quarkdb::fsyncPolicyToString')
    frm = cx.fn('quarkdb::parseFsyncPolicy')
    en = cx.p.enum.get('quarkdb::FsyncPolicy')
    cx.need(en, 'enum FsyncPolicy')
    allv = [('e', n) if n.startswith('quarkdb') else ('e', 'quarkdb::FsyncPolicy::' + n) for n, v in en['vals']]
    name = {}
    for p in cx.paths(to):
        if p.outcome == 'return' and p.val[0] == 's':
            for v in allv:
                if not p.facts.refutes(eq(P(to, 0), v)):
                    name.setdefault(v, set()).add(p.val[1])
    for v in allv:
        cx.ob(len(name.get(v, ())) == 1, 'fsyncPolicyToString', 'policy %s has one name' % v[1], to['file'])
    cx.ob(len({tuple(x) for x in name.values()}) == len(allv), 'fsyncPolicyToString', 'policy names differ', to['file'])
    got = {}
    for p in cx.paths(frm, pure=()):
        if p.outcome != 'return':
            continue
        for b, fx in p.ret_cases():
            outs = [e.val for e in p.events if e.kind == 'write']
            if b:
                nm = [list(name[v])[0] for v in allv if name.get(v) and fx.entails(eq(P(frm, 0), ('s', list(name[v])[0])))]
                cx.ob(len(nm) == 1 and len(outs) == 1 and nm[0] in name.get(outs[-1], ()), 'parseFsyncPolicy', 'an accepted name is the name of the resulting policy', frm['file'], p)
                if nm:
                    got[nm[0]] = 1
            else:
                for v in allv:
                    cx.ob(fx.entails(ne(P(frm, 0), ('s', list(name[v])[0]))), 'parseFsyncPolicy', 'the name of %s is not refused' % v[1], frm['file'], p)
    cx.ob(len(got) == len(allv), 'parseFsyncPolicy', 'every policy name is accepted', frm['file'])


@rule('R06', 'policy-open', 'opening a journal without a stored policy stores the default before the policy is loaded, and the loaded policy is the stored one')
def r06_open(cx):
    FP = K(cx, 'FsyncPolicy')
    f = cx.fn(J + 'RaftJournal', nparams=1)
    s = 'RaftJournal::RaftJournal(path)'
    n = kept = 0
    for p in cx.paths(f, opaque=(J + 'openDB',)):
        gets = [c for c in p.calls('rocksdb::DB::Get') if c.args[1] == ('s', FP)]
        if p.outcome == 'return':
            n += 1
            pu = [x for x in p.calls('rocksdb::DB::Put') if x.args[1] == ('s', FP)]
            for x in pu:
                cx.ob(any(c.n < x.n and x.facts.entails(ne(('call', 'rocksdb::Status::IsNotFound', c.ret), ZERO)) for c in gets), s, 'a stored policy is not replaced by opening the journal', x.where(), p)
            if not pu and gets and all(isok(p.facts, c.ret) and not p.facts.entails(ne(('call', 'rocksdb::Status::IsNotFound', c.ret), ZERO)) for c in gets):
                kept += 1
            nf = [c for c in gets if p.facts.entails(tneg(ok(c.ret)))]
            for c in nf:
                w = [x for x in p.calls('rocksdb::DB::Put') if x.n > c.n and x.args[1] == ('s', FP)]
                cx.ob(len(w) == 1 and w[0].args[2] == ('call', 'quarkdb::fsyncPolicyToString', IMP), s, 'a missing policy is stored as the default', c.where(), p)
                cx.ob(p.facts.entails(ne(('call', 'rocksdb::Status::IsNotFound', c.ret), ZERO)), s, 'an unreadable policy is not taken for a missing one', c.where(), p)
            ws = writes_of(p, J + 'fsyncPolicy')
            cx.ob(len(ws) >= 1, s, 'the policy is loaded', None, p)
            for e in ws[-1:]:
                parsed = is_call(e.val, 'quarkdb::parseFsyncPolicy#1') and any(('out', c.n) == e.val[2][:2] and isok(e.facts, c.ret) for c in gets)
                bad = p.facts.entails(eq(('call', 'quarkdb::parseFsyncPolicy', e.val[2]), ZERO)) if is_call(e.val, 'quarkdb::parseFsyncPolicy#1') else False
                cx.ob(parsed or e.val == IMP, s, 'the policy in effect is the stored one', e.where(), p)
    cx.ob(n > 0, s, 'the journal can be opened')
    cx.ob(kept > 0, s, 'a journal with a stored policy can be opened')


@rule('R06', 'operator', 'the operator command changes the policy only after its argument was recognised')
def r06_op(cx):
    n = 0
    for f, c in callers(cx, J + 'setFsyncPolicy'):
        for p in cx.paths(f, **dispatch_opts()):
            for e in p.calls(J + 'setFsyncPolicy'):
                if e.inl:
                    pass
                n += 1
                v = e.args[0]
                cx.ob(is_call(v, 'quarkdb::parseFsyncPolicy#1') and e.facts.entails(ne(('call', 'quarkdb::parseFsyncPolicy',) + v[2:], ZERO)), short(f['name']), 'the policy set is the recognised argument', e.where(), p)
    cx.ob(n > 0, 'dispatcher', 'there is an operator command for the policy')


def dispatch_opts():
    return dict(opaque=('~^quarkdb::(?!parseFsync)',), )


# ------------------------------------------------------------------ R07
MCTOR = 'quarkdb::RaftMembers::RaftMembers'
INTS = {'CurrentTerm': 'currentTerm', 'LogSize': 'logSize', 'LogStart': 'logStart', 'CommitIndex': 'commitIndex', 'MembershipEpoch': 'membershipEpoch'}


def get_of(p, v):
    """the successful DB::Get whose result is v, or None"""
    for c in p.calls('rocksdb::DB::Get'):
        if isinstance(v, tuple) and v[:2] == ('out', c.n):
            return c
    return None


def last_write(p, field):
    w = [e for e in p.events if e.kind == 'write' and e.loc[0] == 'f' and e.loc[2] == field and e.loc[1] == ('d', ('this',))]
    return w[-1] if w else None


def stored_under(cx, p, v, key, s, what, node=None):
    c = get_of(p, v)
    cx.ob(c is not None and c.args[1] == ('s', key), s, '%s is read from its own place' % what, node, p)
    cx.ob(c is not None and isok(p.facts, c.ret), s, '%s is only taken from a successful read' % what, node, p)


@rule('R07', 'reopen', 'every path that opens a journal reads each piece of state from its own key, from a successful read, with the decoding that matches the encoding; nothing mandatory is defaulted')
def r07_open(cx):
    for f in [cx.fn(J + 'RaftJournal', nparams=1), cx.fn(J + 'RaftJournal', nparams=5)]:
        s = 'RaftJournal::RaftJournal/%d' % len(f['params'])
        n = 0
        for p in cx.paths(f, opaque=(J + 'openDB', MCTOR, 'quarkdb::FsyncThread::FsyncThread')):
            if p.outcome != 'return':
                continue
            n += 1
            for k, m in sorted(INTS.items()):
                e = last_write(p, J + m)
                good = e is not None and is_call(e.val, 'quarkdb::binaryStringToInt')
                cx.ob(good, s, '%s is decoded from the stored integer' % m, e and e.where(), p)
                if good:
                    stored_under(cx, p, e.val[2], K(cx, k), s, m, e.where())
                    cx.ob(p.facts.entails(eq(size(e.val[2]), C(8))), s, '%s is only decoded from a value of the right width' % m, e.where(), p) if False else None
            e = last_write(p, J + 'clusterID')
            cx.ob(e is not None, s, 'the cluster id is loaded', None, p)
            if e:
                stored_under(cx, p, e.val, K(cx, 'ClusterID'), s, 'clusterID', e.where())
            e = last_write(p, J + 'members')
            cx.ob(e is not None and e.val[0] == 'ctor' and len(e.val[2]) == 1, s, 'the members are loaded', None, p)
            if e and e.val[0] == 'ctor' and e.val[2]:
                stored_under(cx, p, e.val[2][0], K(cx, 'Members'), s, 'members', e.where())
            e = last_write(p, J + 'votedFor')
            vote = [c for c in p.calls('rocksdb::DB::Get') if c.args[1] == ('s', K(cx, 'VotedFor'))]
            cx.ob(bool(vote) and isok(p.facts, vote[-1].ret), s, 'the vote is read successfully', None, p)
            ps = [c for c in p.calls('quarkdb::parseServer')]
            if vote:
                v = ('out', vote[-1].n, 'rocksdb::DB::Get', 2, ())
                if ps and e is not None and is_call(e.val, 'quarkdb::parseServer#1'):
                    cx.ob(e.val[2] == v, s, 'the vote is decoded from what was stored', e.where(), p)
                    cx.ob(p.facts.entails(ne(('call', 'quarkdb::parseServer') + e.val[2:], ZERO)), s, 'a malformed vote stops the node', e.where(), p)
                else:
                    cx.ob(p.facts.entails(eq(size(v), ZERO)), s, 'only an empty stored vote means no vote', None, p)
            e = last_write(p, J + 'termOfLastEntry')
            cx.ob(e is not None and last_term_of(p, e.val, last_write(p, J + 'logSize')), s, 'the term of the last entry is the one of the entry right before the end', e and e.where(), p)
            # the invariants the other rules start from
        cx.ob(n > 0, s, 'a journal can be opened')


def last_term_of(p, v, ls):
    if v[0] != '.' or v[2] != RT or not is_call(v[1], 'quarkdb::RaftEntry::deserialize#0') or ls is None:
        return is_call(v, 'quarkdb::RaftEntry::fetchTerm') and entry_of(p, v[2], sub(ls.val, C(1)))
    return entry_of(p, v[1][-1], sub(ls.val, C(1)))


def entry_of(p, v, idx):
    c = get_of(p, v)
    return c is not None and isok(p.facts, c.ret) and entry_key(c.args[1]) is not None and p.facts.eqv(entry_key(c.args[1]), idx)


@rule('R07', 'reset', 'a fresh or reset journal persists every mandatory item under the key it is later read from, with bounds that satisfy the log invariants, before anything is loaded')
def r07_reset(cx):
    f = cx.fn(J + 'RaftJournal', nparams=5)
    s = 'RaftJournal::obliterate'
    cid, nodes, start, pol = P(f, 1), P(f, 2), P(f, 3), P(f, 4)
    for p in cx.paths(f, opaque=(J + 'openDB', MCTOR, 'quarkdb::FsyncThread::FsyncThread')):
        if p.outcome != 'return':
            continue
        last = {}
        ent = []
        for w in p.calls('rocksdb::DB::Put'):
            k = w.args[1]
            if k[0] == 's':
                last[k[1]] = w
            elif entry_key(k) is not None:
                ent.append(w)
            cx.ob(isok(p.facts, w.ret), s, 'a failed write stops the reset', w.where(), p)
        for w in p.calls('rocksdb::DB::Write'):
            for o in puts(batch_ops(p, w)):
                if o.args[0][0] == 's':
                    last[o.args[0][1]] = o
                elif entry_key(o.args[0]) is not None:
                    ent.append(o)

        def val(k):
            w = last.get(K(cx, k))
            return w.args[-1] if w is not None else NULL
        for k, v in (('CurrentTerm', ZERO), ('LogSize', add(start, C(1))), ('LogStart', start), ('CommitIndex', start), ('MembershipEpoch', start)):
            cx.ob(p.facts.eqv(val(k), int_bin(v)), s, '%s is stored with its initial value' % k, None, p)
        cx.ob(val('ClusterID') == cid, s, 'the cluster id is stored', None, p)
        cx.ob(val('VotedFor') == ('s', ''), s, 'no vote is stored', None, p)
        cx.ob(val('FsyncPolicy') == ('call', 'quarkdb::fsyncPolicyToString', pol), s, 'the fsync policy is stored', None, p)
        m = val('Members')
        cx.ob(is_call(m, 'quarkdb::RaftMembers::toString') and nodes in repr_terms(m), s, 'the members are stored', None, p)
        cx.ob(len(ent) == 1 and p.facts.eqv(entry_key(ent[0].args[-2]), start), s, 'the first entry is at the log start', None, p)
        if ent:
            en = ent[0].args[-1]
            en = en[2] if is_call(en, 'quarkdb::RaftEntry::serialize') else NULL
            cx.ob(Engine.project(en, RT) == ZERO, s, 'the first entry has the initial term', None, p)
            cx.ob(arg_of(en, 0) == ('s', 'JOURNAL_UPDATE_MEMBERS') and arg_of(en, 1) == m and arg_of(en, 2) == cid, s, 'the first entry carries the initial membership', None, p)
        first_get = [c.n for c in p.calls('rocksdb::DB::Get')]
        cx.ob(bool(first_get) and all(w.n < min(first_get) for w in last.values()), s, 'everything is stored before the journal is loaded', None, p)


def repr_terms(v):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            out.append(x)
            for y in x:
                rec(y)
    rec(v)
    return out


@rule('R07', 'wipe', 'resetting removes every key of the old journal before the new state is stored')
def r07_wipe(cx):
    f = cx.fn(J + 'RaftJournal', nparams=5)
    s = 'RaftJournal::obliterate'
    n = 0
    for p in cx.paths(f, opaque=(J + 'openDB', MCTOR, 'quarkdb::FsyncThread::FsyncThread')):
        if p.outcome != 'return':
            continue
        sk = p.calls('rocksdb::Iterator::SeekToFirst')
        first = [c for c in p.calls('rocksdb::DB::Put', 'rocksdb::DB::Write')][:1]
        cx.ob(bool(sk) and (not first or sk[0].n < first[0].n), s, 'the old content is visited from its first key on, before anything is stored', None, p)
        if not sk:
            continue
        fin = [e for e in p.events if e.kind == 'loop' and e.info in ('exit', 'zero') and e.n > sk[0].n][:1]
        cx.ob(bool(fin) and any(l[0] == 'eq' and is_call(l[1][0][0], 'rocksdb::Iterator::Valid') for l in fin[0].facts.all() if l[0] == 'eq' and len(l[1]) == 1), s, 'the visit ends only after the last key', None, p)
        beg = [e for e in p.events if e.kind == 'loop' and e.info == 'begin' and e.n > sk[0].n][:1]
        if beg:
            n += 1
            d = [e for e in p.calls('rocksdb::DB::Delete', 'rocksdb::WriteBatch::Delete') if e.loops and e.loops[-1] == beg[0].val[1]]
            cx.ob(len(d) == 1 and any(is_call(t, 'rocksdb::Iterator::key') for t in repr_tuples(d[0].args)), s, 'every key visited is removed', None, p)
            nx = [e for e in p.calls('rocksdb::Iterator::Next') if e.loops and e.loops[-1] == beg[0].val[1]]
            cx.ob(len(nx) == 1, s, 'the visit advances one key at a time', None, p)
    cx.ob(n > 0, s, 'old content is removed')


def repr_tuples(x):
    out = []

    def go(v):
        if isinstance(v, tuple):
            if v and isinstance(v[0], str):
                out.append(v)
            for y in v:
                go(y)
    go(x)
    return out


@rule('R07', 'same-place', 'every journal key written anywhere is one that reopening reads, and all journal keys are distinct')
def r07_keys(cx):
    names = sorted(k for k in cx.p.glob if k.startswith('quarkdb::KeyConstants::kJournal_'))
    cx.need(len(names) >= 11, 'journal keys')
    vals = [const_str(cx, k) for k in names]
    cx.ob(len(set(vals)) == len(vals), 'KeyConstants', 'journal keys are distinct')
    cx.ob(all(not v.startswith('E') or len(v) != 9 for v in vals), 'KeyConstants', 'no journal key looks like an entry key')
    rd, wr = set(), set()
    for f in public_methods(cx, CLS, ('ObliterateAndReinitializeJournal', 'simulateDataLoss')) + [cx.fn(J + 'RaftJournal', nparams=1)]:
        for p in cx.paths(f, **(dict(opaque=(J + 'openDB', MCTOR, 'quarkdb::FsyncThread::FsyncThread')) if f['name'].endswith('RaftJournal::RaftJournal') else dict(setup=inv, guards=GUARDS))):
            for c in p.calls('rocksdb::DB::Get'):
                if c.args[1][0] == 's':
                    rd.add(c.args[1][1])
            for c in p.calls('rocksdb::DB::Put'):
                if c.args[1][0] == 's':
                    wr.add(c.args[1][1])
            for c in p.calls('rocksdb::WriteBatch::Put'):
                if c.args[0][0] == 's':
                    wr.add(c.args[0][1])
    for k in sorted(wr):
        cx.ob(k in rd, 'RaftJournal', 'stored item %s is also read back' % k)
    for k in vals:
        cx.ob(k in wr, 'RaftJournal', 'item %s is stored' % k)


@rule('R07', 'item-codec', 'integers are decoded by the inverse of what encodes them, and a member list by the inverse separator structure')
def r07_codec(cx):
    int_codec(cx)
    members_codec(cx)


def members_codec(cx):
    f = cx.fn('quarkdb::RaftMembers::toString')
    N, O = this('quarkdb::RaftMembers::nodes'), this('quarkdb::RaftMembers::observers')
    for p in cx.paths(f):
        v = p.val
        good = v is not None and v[0] == 'cat' and len(v[1]) == 3 and v[1][0] == ('call', 'quarkdb::serializeNodes', N) and v[1][2] == ('call', 'quarkdb::serializeNodes', O) and v[1][1][0] == 's'
        cx.ob(good, 'RaftMembers::toString', 'full nodes, separator, observers', f['file'], p)
        sep = v[1][1][1] if good else None
    f = cx.fn('quarkdb::RaftMembers::parse')
    for p, b, fx in bool_cases(cx.paths(f, pure=('quarkdb::split',))):
        sp = [c for c in p.calls('quarkdb::split')]
        cx.ob(len(sp) == 1 and sp[0].args == (P(f, 0), ('s', sep)), 'RaftMembers::parse', 'splits the text on the same separator', f['file'], p)
        if not sp:
            continue
        parts = ('call', 'quarkdb::split') + sp[0].args
        if b:
            cx.ob(fx.entails(eq(size(parts), C(2))), 'RaftMembers::parse', 'accepts only two parts', f['file'], p)
            nd = [e for e in p.events if e.kind == 'write' and e.loc == thisloc('quarkdb::RaftMembers::nodes')]
            ob_ = [e for e in p.events if e.kind == 'write' and e.loc == thisloc('quarkdb::RaftMembers::observers')]
            p0, p1 = ('call', '[]', parts, C(0)), ('call', '[]', parts, C(1))
            cx.ob(bool(nd) and is_call(nd[-1].val, 'quarkdb::parseServers#1') and nd[-1].val[2] == p0 and fx.entails(ne(('call', 'quarkdb::parseServers') + nd[-1].val[2:], ZERO)), 'RaftMembers::parse', 'the full nodes are the valid first part', f['file'], p)
            if ob_ and is_call(ob_[-1].val, 'quarkdb::parseServers#1'):
                cx.ob(ob_[-1].val[2] == p1 and fx.entails(ne(('call', 'quarkdb::parseServers') + ob_[-1].val[2:], ZERO)), 'RaftMembers::parse', 'the observers are the valid second part', f['file'], p)
            else:
                cx.ob(fx.entails(eq(size(p1), ZERO)) or fx.entails(eq(p1, ('s', ''))), 'RaftMembers::parse', 'only an empty second part means no observers', f['file'], p)


# ------------------------------------------------------------------ R08
@rule('R08', 'entry-write', 'the stored form of an entry is the term, then for each argument in order its length and its bytes')
def r08_write(cx):
    f = cx.fn('quarkdb::RaftEntry::serialize')
    s = 'RaftEntry::serialize'
    cont = ('init', ('f', ('f', ('d', ('this',)), 'quarkdb::RaftEntry::request'), 'quarkdb::RedisRequest::contents'))
    n = 0
    for p in cx.paths(f):
        a = apps(p)
        cx.ob(bool(a) and a[0].val == ('bytes', this(RT), C(8)) and not a[0].loops, s, 'starts with the eight bytes of the term', None, p)
        rest = a[1:]
        if rest:
            n += 1
            cx.ob(len(rest) == 2 and all(x.loops for x in rest), s, 'two items per argument', None, p)
            if len(rest) == 2:
                arg = rest[1].val
                cx.ob(rest[0].val == ('bytes', size(arg), C(8)), s, 'each argument is preceded by its own length in eight bytes', rest[0].where(), p)
                cx.ob(is_call(arg, '[]') and arg[2] == cont and covers(p, rest[1], arg[3], ZERO, size(cont)) or elem_of(arg, cont), s, 'every argument is written, in order', rest[1].where(), p)
        else:
            cx.ob(p.facts.entails(le(size(cont), ZERO)), s, 'no argument is written only when there is none', None, p)
    cx.ob(n > 0, s, 'arguments are written')


def elem_of(v, cont):
    return v[0] == 'elem' and v[1] == cont


@rule('R08', 'entry-read', 'an entry is read back as term, then length and bytes per argument, from the same widths, until the data ends')
def r08_read(cx):
    f = cx.fn('quarkdb::RaftEntry::deserialize')
    s = 'RaftEntry::deserialize'
    d = ('call', 'data', P(f, 1))
    n = 0
    for p in cx.paths(f):
        t = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == RT]
        cx.ob(len(t) == 1 and t[0].val == ('load', d, C(8)), s, 'the term is the first eight bytes', None, p)
        clr = [c for c in p.calls('~::clear$') if 'vector' in c.name]
        ins = [c for c in p.calls('~vector::(emplace_back|push_back)$')]
        cx.ob(bool(clr) and all(c.n > clr[0].n for c in ins), s, 'earlier contents are dropped first', None, p)
        for c in ins:
            n += 1
            v = c.args[0]
            good = v[0] in ('ctor', 'text') and len(c.loops) == 1
            ptr, ln = (v[2] if v[0] == 'ctor' else v[1:]) if good else (NULL, NULL)
            if good:
                pos = sub(ptr, C(8))
                lv = loop_var(p, c.loops[-1], pos)
                good = ln == ('load', pos, C(8)) and lv is not None and lv[0] == add(d, C(8)) and (lv[1] is None or lv[1] == add(add(pos, C(8)), ln))
                good = good and c.facts.entails(lt(pos, add(d, size(P(f, 1)))))
            cx.ob(good, s, 'each argument is its length in eight bytes and then that many bytes, one after the other', c.where(), p)
        if not ins and p.outcome == 'return':
            cx.ob(p.facts.entails(ge(add(d, C(8)), add(d, size(P(f, 1))))), s, 'no argument is read only when nothing follows the term', None, p)
    cx.ob(n > 0, s, 'arguments are read')
    g = cx.fn('quarkdb::RaftEntry::fetchTerm')
    for p in cx.paths(g):
        cx.ob(p.val == ('load', ('call', 'data', P(g, 0)), C(8)), 'RaftEntry::fetchTerm', 'the term is the first eight bytes', g['file'], p)


@rule('R08', 'entry-key', 'an entry key is a fixed prefix and the big-endian index, and is parsed back as exactly that; the integer codec is order preserving and inverse')
def r08_key(cx):
    int_codec(cx)
    n = 0
    for f in [f for f in cx.p.fn.values() if f['name'].split('::')[-1] == 'encodeEntryKey']:
        for p in cx.paths(f, extra_inline=('encodeEntryKey', 'quarkdb::encodeEntryKey'), pure=INTW):
            n += 1
            s = 'encodeEntryKey/%d' % len(f['params'])
            if len(f['params']) == 1:
                v = p.val
                cx.ob(v[0] == 'cat' and len(v[1]) == 2 and v[1][0] == ('s', 'E') and v[1][1] == int_bin(P(f, 0)), s, "the key is 'E' and the index", f['file'], p)
            else:
                w = [e for e in p.events if e.kind == 'write']
                pre = [e for e in w if e.val in (('c', 69), ('s', 'E'), ('c', 'E'))]
                num = p.calls('quarkdb::intToBinaryString')
                cx.ob(len(pre) == 1 and len(num) == 1 and num[0].args[0] == P(f, 0), s, "the key is 'E' and the index", f['file'], p)
                if pre and num:
                    cx.ob(at_offset(pre[0].loc, 0) and to_lin(num[0].args[1])[0] == 1, s, 'prefix first, index right behind it', f['file'], p)
    cx.ob(n >= 1, 'encodeEntryKey', 'entry keys are encoded')
    f = [f for f in cx.p.fn.values() if f['name'].split('::')[-1] == 'parseEntryKey']
    if f:
        f = f[0]
        for p, b, fx in bool_cases(cx.paths(f, pure=INTR, extra_inline=('parseEntryKey', 'quarkdb::parseEntryKey'))):
            k = P(f, 0)
            good = AND(eq(size(k), C(9)), eq(('call', '[]', k, ZERO), C(69)))
            if b:
                w = [e for e in p.events if e.kind == 'write']
                cx.ob(fx.entails(good), 'parseEntryKey', 'only nine bytes starting with E are an entry key', f['file'], p)
                cx.ob(len(w) == 1 and is_call(w[0].val, 'quarkdb::binaryStringToInt') and w[0].val[2] == add(('call', 'data', k), C(1)), 'parseEntryKey', 'the index is what follows the prefix', f['file'], p)
            else:
                cx.ob(fx.entails(tneg(good)), 'parseEntryKey', 'an entry key is not refused', f['file'], p)


def at_offset(loc, n):
    """the location is base[n] or *(base + n)"""
    if loc[0] == 'ix':
        return loc[2] == C(n)
    if loc[0] == 'd':
        c, t = to_lin(loc[1])
        return c == n
    return n == 0


@rule('R08', 'iterator', 'whenever the log iterator is usable, it stands on the entry whose key is its current index, and moving on steps the index by exactly one')
def r08_iter(cx):
    IT = 'quarkdb::RaftJournal::Iterator::'
    n = 0
    for f in cx.p.methods('quarkdb::RaftJournal::Iterator'):
        if f['name'].endswith('<dtor>') or f.get('acc') != 'public':
            continue
        s = short(f['name'])
        ctor = f['name'].endswith('Iterator::Iterator')
        for p in cx.paths(f):
            if p.outcome != 'return':
                continue
            it, idx = p.final(thisloc(IT + 'iter')), p.final(thisloc(IT + 'currentIndex'))
            if it is None or it == NULL:
                continue
            moved = idx != this(IT + 'currentIndex') or p.calls('~rocksdb::Iterator::(Next|Prev|Seek.*)$') or ctor
            if not moved:
                continue
            n += 1
            cur = p.final(('d', it))
            if p.facts.refutes(ne(('call', 'rocksdb::Iterator::Valid', cur), ZERO)) or p.facts.refutes(ne(('call', 'Valid', cur), ZERO)):
                continue
            keys = [('call', x, cur) for x in ('rocksdb::Iterator::key', 'key')]
            encs = [('call', x, idx) for x in ('encodeEntryKey', 'quarkdb::encodeEntryKey')]
            cx.ob(any(p.facts.eqv(k, e) for k in keys for e in encs), s, 'the position is the key of the current index', f['file'], p)
            if not ctor:
                cx.ob(idx == add(this(IT + 'currentIndex'), C(1)), s, 'the index moves by one', f['file'], p)
        if s.endswith('::getCurrentIndex'):
            for p in cx.paths(f):
                cx.ob(p.val == this(IT + 'currentIndex'), s, 'reports the current index', f['file'], p)
        if s.endswith('::current'):
            for p in cx.paths(f):
                if p.outcome == 'return':
                    w = [e for e in p.events if e.kind == 'write']
                    cx.ob(len(w) == 1 and is_call(w[0].val, 'value', 'rocksdb::Iterator::value'), s, 'hands out the stored entry', f['file'], p)
    cx.ob(n > 0, 'RaftJournal::Iterator', 'the iterator moves')


@rule('R08', 'fetch', 'an entry is fetched from the key of the requested index and decoded only after a successful read')
def r08_fetch(cx):
    n = 0
    for f in by_name(cx, J + 'fetch', J + 'fetch_or_die'):
        s = short(f['name'])
        for p in cx.paths(f):
            g = p.calls('rocksdb::DB::Get')
            for c in g:
                n += 1
                cx.ob(entry_key(c.args[1]) == P(f, 0), s, 'reads the key of the requested index', c.where(), p)
            for d in p.calls('quarkdb::RaftEntry::deserialize'):
                cx.ob(any(('out', c.n) == d.args[1][:2] and isok(d.facts, c.ret) for c in g), s, 'decodes only what was read', d.where(), p)
            if p.outcome == 'return' and f['name'].endswith('_or_die'):
                cx.ob(all(isok(p.facts, c.ret) for c in g) and g, s, 'returns only after a successful read', None, p)
    cx.ob(n > 0, 'RaftJournal::fetch', 'entries are fetched')
