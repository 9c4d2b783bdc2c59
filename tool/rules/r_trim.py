"""Automatic journal trimming: R19."""
from qdb.common import *
from rules.r_dispatch import fld, emp, rets, anyof
from rules.r_repl import TR, OPQ

T = 'quarkdb::RaftTrimmer::'
B = 'quarkdb::RaftTrimmingBlock::'
TC = 'quarkdb::TrimmingConfig::'
RC = 'quarkdb::RaftConfig::'
OT = 'OnlineTracker::'
NONE = C((1 << 63) - 1)


@rule('R19', 'what', 'what is trimmed is applied, beyond what must be kept, one batch, and not blocked')
def r19_what(cx):
    n = 0
    for g, node in callers(cx, 'quarkdb::RaftJournal::trimUntil'):
        f = g
        s = short(g['name'])
        cx.ob(g['name'].startswith(T), s, 'only the trimmer trims the journal', g['file'])
        for p in cx.paths(f, opaque=('~RaftJournal::', '~RaftConfig::', '~StateMachine::', '~canTrimUntil$', '~AssistedThread::', '~ThreadAssistant::')):
            for e in p.calls('~RaftJournal::trimUntil$'):
                n += 1
                t = e.args[0]
                start, sz, cfg = [[x.ret for x in p.calls(k) if x.n < e.n] for k in ('~RaftJournal::getLogStart$', '~RaftJournal::getLogSize$', '~RaftConfig::getTrimmingConfig$')]
                keep, step = [[fld(c, TC + k) if False else Engine.project(c, TC + k) for c in cfg] for k in ('keepAtLeast', 'step')]
                cx.ob(any(e.facts.entails(ge(sub(z, t), k)) for z in sz for k in keep), s, 'at least the configured number of entries stay', e.where(), p)
                cx.ob(any(e.facts.eqv(t, add(a, k)) for a in start for k in step), s, 'removes one batch of the configured size', e.where(), p)
                cx.ob(any(e.facts.entails(ne(x.ret, ZERO)) and e.facts.eqv(x.args[0], t) for x in p.calls('~RaftTrimmer::canTrimUntil$') if x.n < e.n), s, 'asks whether something still needs the entries', e.where(), p)
                cx.ob(any(e.facts.entails(ge(x.ret, sub(t, C(1)))) for x in p.calls('~StateMachine::getLastApplied$') if x.n < e.n), s, 'everything removed is applied', e.where(), p)
                cx.ob(any(e.facts.entails(ge(x.ret, sub(t, C(1)))) for x in p.calls('~RaftJournal::getCommitIndex$') if x.n < e.n), s, 'everything removed is committed', e.where(), p)
    cx.ob(n > 0, 'RaftTrimmer', 'trims')
    f = cx.fn(T + 'canTrimUntil')
    s = 'canTrimUntil'
    t = P(f, 0)
    bl = this(T + 'blocks')
    n = 0
    for p, b, F in bool_cases(cx.paths(f)):
        empty = F.entails(eq(size(bl), ZERO)) or F.entails(eq(('call', 'begin', bl), ('call', 'end', bl)))
        lids = {e.val[1] for e in p.events if e.kind == 'loop' and e.info in ('begin', 'zero')}
        if b:
            good = empty
            for x in p.events:
                if x.kind == 'loop' and x.info == 'iterend':
                    for v in indices(x.facts):
                        if visits(p, [x.val[1]], v[1][1][1], lambda c: c == bl) and x.facts.entails(ge(v, t)):
                            good = True
                            n += 1
            cx.ob(good, s, 'yes only if no block preserves an entry before the threshold', f['file'], p)
        else:
            cx.ob(any(F.entails(le(v, t)) for v in indices(F)), s, 'no only if some block needs the entries', f['file'], p)
    cx.ob(n > 0, s, 'looks at the blocks')
    for p in cx.paths(f, reads=True):
        for e in p.events:
            if e.kind == 'read' and T + 'blocks' in loc_fields(e.loc):
                cx.ob(held(e, T + 'mtx'), s, 'reads the blocks under the lock', e.where(), p)


def indices(facts):
    """values of preservation indices of blocks mentioned in the facts"""
    out = []
    for l in facts.all():
        for v in subterms(l):
            if len(v) == 2 and v[0] == 'init' and isinstance(v[1], tuple) and v[1][0] == 'f' and v[1][2] == B + 'preserveIndex' and v[1][1][0] == 'd' and v not in out:
                out.append(v)
    return out


@rule('R19', 'block', 'a block is in force from the moment it is set until it is lifted')
def r19_block(cx):
    f = cx.fn(T + 'registerChange')
    s = 'registerChange'
    blk = P(f, 0)
    idx = ('init', ('f', ('d', blk), B + 'preserveIndex'))
    n = 0
    for p in cx.paths(f):
        ins = [e for e in p.calls('~set::insert$', '~set::emplace$') if last_field(e.objloc or ('x',)) == T + 'blocks']
        era = [e for e in p.calls('~set::erase$') if last_field(e.objloc or ('x',)) == T + 'blocks']
        for e in ins + era:
            n += 1
            cx.ob(held(e, T + 'mtx') and e.args[0] == blk, s, 'changes the set of blocks under the lock', e.where(), p)
        if p.outcome == 'return':
            on, off = p.facts.entails(ne(idx, NONE)), p.facts.entails(eq(idx, NONE))
            cx.ob(len(ins) == 1 and not era and on or len(era) == 1 and not ins and off, s, 'in the set exactly while it preserves something', None, p)
    cx.ob(n > 0, s, 'registers blocks')
    f = cx.fn(B + 'enforce')
    s = 'enforce'
    lim = P(f, 0)
    reg = this(B + 'registered')
    for p in cx.paths(f, opaque=('~RaftTrimmer::',)):
        if p.outcome != 'return':
            cx.ob(False, s, 'always returns', None, p)
            continue
        w = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(B + 'preserveIndex')]
        cx.ob(len(w) >= 1 and w[-1].val == lim, s, 'preserves from the given entry on', None, p)
        ch = p.calls('~RaftTrimmer::registerChange$')
        for e in ch:
            cx.ob(e.args[0] == ('addr', ('d', ('this',))) or e.args[0] == ('this',), s, 'registers itself', e.where(), p)
            cx.ob(bool(w) and w[-1].n < e.n, s, 'tells the trimmer after the index is set', e.where(), p)
        r = last_written(p, thisloc(B + 'registered'))
        F = p.facts
        on, off = F.entails(ne(lim, NONE)), F.entails(eq(lim, NONE))
        was, wasnt = F.entails(ne(reg, ZERO)), F.entails(eq(reg, ZERO))
        if r is not None and r[0] != 'c':
            r = C(1) if F.entails(truth(r)) else C(0) if F.entails(tneg(truth(r))) else r
        now = r if r is not None else C(1) if was else C(0) if wasnt else None
        # whenever the registration has to change the trimmer is told, and the flag follows
        cx.ob(bool(ch) or was and on or wasnt and off, s, 'the trimmer is told of every block set and lifted', None, p)
        cx.ob(now is not None and (on and truth(now) is True or off and truth(now) is False), s, 'remembers whether it is registered', None, p)
    f = cx.fn(B + 'lift')
    for p in cx.paths(f, opaque=('~RaftTrimmingBlock::enforce$', '~RaftTrimmer::')):
        c = p.calls('~RaftTrimmingBlock::enforce$')
        cx.ob(len(c) == 1 and c[0].args[0] == NONE, 'lift', 'a lifted block preserves nothing', f['file'], p)
    for nm in ('<dtor>', 'RaftTrimmingBlock'):
        fs = [g for g in cx.p.methods('quarkdb::RaftTrimmingBlock') if g['name'].split('::')[-1] in (nm, '~RaftTrimmingBlock' if nm == '<dtor>' else nm)]
        cx.need(fs, 'RaftTrimmingBlock ' + nm)
        for g in fs:
            for p in cx.paths(g, opaque=('~RaftTrimmingBlock::enforce$', '~RaftTrimmer::')):
                if nm == '<dtor>':
                    c = p.calls('~RaftTrimmingBlock::enforce$', '~RaftTrimmingBlock::lift$')
                    cx.ob(any(short(e.name).endswith('enforce') and e.args[0] == NONE for e in c), '~RaftTrimmingBlock', 'a block that goes away is taken from the trimmer', g['file'], p)
                else:
                    c = p.calls('~RaftTrimmingBlock::enforce$')
                    cx.ob(len(c) == 1 and c[0].args[0] == P(g, 1), 'RaftTrimmingBlock', 'in force from construction', g['file'], p)
    f = cx.fn(B + 'getPreservationIndex')
    for p in cx.paths(f):
        cx.ob(p.val == this(B + 'preserveIndex'), 'getPreservationIndex', 'is the index set', f['file'], p)
    for g in writers(cx, B + 'preserveIndex') + writers(cx, B + 'registered'):
        cx.ob(g['name'] == B + 'enforce' or g['name'].startswith(B) and (g.get('ctor') or g.get('acc') == 'private'), short(g['name']), 'the index changes only by enforcing', g['file'])


@rule('R19', 'users', 'replication preserves what its target still needs, resilvering everything')
def r19_users(cx):
    f = cx.fn(TR + 'RaftReplicaTracker')
    for p in cx.paths(f, opaque=OPQ + ('~AssistedThread::',)):
        c = [e for e in p.calls('~RaftTrimmingBlock::RaftTrimmingBlock$')]
        cx.ob(len(c) == 1 and c[0].args[1] == ZERO or any(e.args[1] == C(0) for e in c), 'RaftReplicaTracker', 'everything is preserved until the target answers', f['file'], p)
        run = [e for e in p.events if e.kind == 'call' and (e.name == 'std::thread::thread' and e.args or e.name.endswith('AssistedThread::reset'))]
        cx.ob(all(c and c[0].n < e.n for e in run), 'RaftReplicaTracker', 'from before replication starts', f['file'], p)
    f = cx.fn(TR + 'main')
    s = 'RaftReplicaTracker::main'
    n = 0
    ps = cx.paths(f, opaque=OPQ)
    for p in ps:
        for e in p.calls('~RaftTrimmingBlock::lift$'):
            n += 1
            cx.ob(any(e.facts.entails(ne(x.ret, ZERO)) for x in p.calls('~hasBeenOfflineForLong$') if x.n < e.n and x.loops == e.loops), s, 'stops preserving entries only for a target that has been offline for long', e.where(), p)
        for e in p.calls('~RaftTrimmingBlock::enforce$'):
            n += 1
            if e.args[0] == NONE:
                cx.ob(False, s, 'stops preserving entries only for a target that has been offline for long', e.where(), p)
                continue
            # the position the next request starts from is the variable handed to sendPayload
            good = False
            for x in [x for x in p.events if x.kind == 'loop' and x.info == 'begin' and x.val[1] in e.loops]:
                for v, ent, cur in x.args or ():
                    for y in p.events:
                        if y.kind == 'loop' and y.info == 'iterend' and y.val == x.val:
                            for v2, _, b in y.args or ():
                                if v2 == v and e.facts.entails(le(e.args[0], sub(b, C(1)))) and sent_from(p, v, cur):
                                    good = True
            cx.ob(good, s, 'preserves the entries from the next one to send, and the one before it', e.where(), p)
        # every round that continues leaves the block in a state fit for the target
    cx.ob(n > 0, s, 'moves the block')
    f = cx.fn(TR + 'monitorAckReception')
    s = 'monitorAckReception'
    for p in cx.paths(f, opaque=OPQ):
        for e in p.calls('~RaftTrimmingBlock::lift$'):
            cx.ob(False, s, 'a target that answers keeps its block', e.where(), p)
        for e in p.calls('~RaftTrimmingBlock::enforce$'):
            rr = [x for x in p.calls('~retrieve_response$') if x.n < e.n and x.loops[:len(e.loops)] == e.loops]
            good = any(e.facts.entails(le(e.args[0], sub(Engine.project(outv(x, 1), 'quarkdb::RaftAppendEntriesResponse::logSize'), C(1)))) for x in rr)
            cx.ob(good, s, 'preserves the entries the target does not have yet, and the one before them', e.where(), p)
    f = cx.fn(OT + 'hasBeenOfflineForLong')
    s = 'hasBeenOfflineForLong'
    n = 0
    for p, b, F in bool_cases(cx.paths(f)):
        if not b:
            continue
        n += 1
        cx.ob(F.entails(eq(this(OT + 'online'), ZERO)), s, 'not while online', f['file'], p)
        now = [result(e) for e in p.events if e.kind == 'call' and e.name.endswith('steady_clock::now')]
        d = [sub(x, this(OT + 'lastSeen')) for x in now]
        cx.ob(any(repr(x) in repr(l) or repr(this(OT + 'lastSeen')) in repr(l) and l[0] != 'eq' for x in d for l in F.all()), s, 'measured from when it was last seen', f['file'], p)
    cx.ob(n > 0, s, 'can be true')
    f = cx.fn('quarkdb::RaftResilverer::RaftResilverer')
    s = 'RaftResilverer'
    n = 0
    for p in cx.paths(f, opaque=('~AssistedThread::', '~RaftTrimmingBlock::', '~RaftTalker', '~setStatus$', '~generateUuid')):
        c = p.calls('~RaftTrimmingBlock::RaftTrimmingBlock$')
        run = [e for e in p.events if e.kind == 'call' and e.name.endswith('AssistedThread::reset')]
        for e in run:
            n += 1
            cx.ob(any(x.n < e.n and x.args[1] == C(0) for x in c) or any(x.kind == 'new' and 'RaftTrimmingBlock' in repr(x.info) and x.n < e.n for x in p.events) and any(x.args[1:2] == (C(0),) for x in c), s, 'nothing is trimmed from before the copy starts', e.where(), p)
    cx.ob(n > 0, s, 'starts copying')
    for g in writers(cx, 'quarkdb::RaftResilverer::trimmingBlock'):
        cx.ob(g['name'].endswith('::RaftResilverer') or g['name'].split('::')[-1] in ('<dtor>', '~RaftResilverer'), short(g['name']), 'until it has ended', g['file'])


def request_words(p):
    """the words of the request built on a path"""
    return [e.args[0] for e in p.calls('~vector::emplace_back$', '~vector::push_back$') if len(e.args) == 1]


def sent_from(p, v, cur):
    """the variable whose value at the start of the round is cur is the position handed to sendPayload"""
    for x in p.calls('~sendPayload$'):
        if x.args[1] == cur:
            return True
        # it may have been reset to the size of the journal before
        if x.args[1] in [y.ret for y in p.calls('~RaftJournal::getLogSize$') if y.n < x.n] and x.facts.entails(le(cur, ([z.ret for z in p.calls('~RaftJournal::getLogStart$') if z.n < x.n] or [NOTHING])[-1])):
            return True
    return False


@rule('R19', 'config', 'the trimming settings are what the operator stored')
def r19_config(cx):
    f = cx.fn(TC + 'parse')
    s = 'TrimmingConfig::parse'
    n = 0
    for p, b, F in bool_cases(cx.paths(f, opaque=('~parseIntegerList$',))):
        c = p.calls('~parseIntegerList$')
        cx.ob(len(c) == 1 and c[0].args[0] == P(f, 0) and c[0].args[1] == ('s', ':'), s, 'two numbers separated by a colon', f['file'], p)
        if not c:
            continue
        out = outv(c[0], 2)
        valid = AND(ne(result(c[0]), ZERO), eq(size(out), C(2)))
        if b:
            n += 1
            cx.ob(F.entails(valid), s, 'accepts nothing else', f['file'], p)
            for i, k in enumerate(('keepAtLeast', 'step')):
                w = last_written(p, thisloc(TC + k))
                cx.ob(w is not None and w in (('call', '[]', out, C(i)), Engine.index(out, C(i)) if hasattr(Engine, 'index') else None), s, '%s is number %d' % (k, i + 1), f['file'], p)
        else:
            cx.ob(F.refutes(valid) or F.entails(eq(result(c[0]), ZERO)) or F.entails(ne(size(out), C(2))), s, 'refuses only malformed text', f['file'], p)
    cx.ob(n > 0, s, 'parses')
    f = cx.fn(TC + 'toString')
    k, st = this(TC + 'keepAtLeast'), this(TC + 'step')
    for p in cx.paths(f):
        cx.ob(p.val == ('cat', (('call', 'std::to_string', k), ('s', ':'), ('call', 'std::to_string', st))), 'TrimmingConfig::toString', 'what parse reads', f['file'], p)
    key = const_str(cx, 'kTrimConfigKey')
    rkey = const_str(cx, 'kResilveringEnabledKey')
    cx.ob(key == 'raft.trimming' and rkey == 'raft.resilvering.enabled' and key != rkey, 'RaftConfig', 'each setting has its own key')
    kv = lambda v, g, txt: v == ('s', txt) or v == ('g', g) or v == ('init', ('g', g))
    f = cx.fn(RC + 'getTrimmingConfig')
    s = 'getTrimmingConfig'
    n = 0
    for p in cx.paths(f, opaque=('~StateMachine::', '~TrimmingConfig::parse$')):
        c = p.calls('~StateMachine::configGet$')
        cx.ob(len(c) == 1 and kv(c[0].args[0], 'kTrimConfigKey', key), s, 'reads its key', f['file'], p)
        if not c:
            continue
        st = result(c[0])
        F = p.facts
        if p.outcome != 'return':
            cx.ob(F.entails(tneg(ok(st))) and F.entails(eq(('call', 'rocksdb::Status::IsNotFound', st), ZERO)), s, 'fails only when the settings cannot be read', f['file'], p)
            continue
        keep, step = [Engine.project(p.val, TC + k) for k in ('keepAtLeast', 'step')]
        dflt = keep == C(50000000) and step == C(200000)
        pr = p.calls('~TrimmingConfig::parse$')
        good = any(F.entails(ne(result(x), ZERO)) and x.args[0] == outv(c[0], 1) for x in pr) and F.entails(ok(st))
        n += good
        cx.ob(dflt and not good or good and not dflt, s, 'the stored settings if there are any, the defaults otherwise', f['file'], p)
        if dflt:
            cx.ob(F.entails(ne(('call', 'rocksdb::Status::IsNotFound', st), ZERO)) or any(F.entails(eq(result(x), ZERO)) for x in pr), s, 'defaults only without usable settings', f['file'], p)
    cx.ob(n > 0, s, 'returns what is stored')
    f = cx.fn(RC + 'setTrimmingConfig')
    s = 'setTrimmingConfig'
    cfg, ov = P(f, 0), P(f, 1)
    keep, step = Engine.project(cfg, TC + 'keepAtLeast'), Engine.project(cfg, TC + 'step')
    E = 'quarkdb::EncodedConfigChange::'
    n = 0
    TSTR = ('call', TC + 'toString', cfg)
    for p in cx.paths(f, pure=('~TrimmingConfig::toString$',)):
        if p.outcome != 'return':
            continue
        er, rq = Engine.project(p.val, E + 'error'), Engine.project(p.val, E + 'request')
        fine = er == ('s', '')
        safe = p.facts.entails(ne(ov, ZERO)) or p.facts.entails(gt(keep, C(100000))) and p.facts.entails(gt(step, C(10000)))
        if fine:
            n += 1
            cx.ob(safe, s, 'very low values only when overridden', f['file'], p)
            cx.ob(request_words(p) == [('s', 'CONFIG_SET'), ('s', key), TSTR], s, 'stores them under their key', f['file'], p)
        else:
            cx.ob(p.facts.entails(eq(ov, ZERO)) and (p.facts.entails(le(keep, C(100000))) or p.facts.entails(le(step, C(10000)))), s, 'refuses only low values', f['file'], p)
    cx.ob(n > 0, s, 'accepts')
    f = cx.fn(RC + 'getResilveringEnabled')
    s = 'getResilveringEnabled'
    n = 0
    for p, b, F in bool_cases(cx.paths(f, opaque=('~StateMachine::',))):
        c = p.calls('~StateMachine::configGet$')
        cx.ob(len(c) == 1 and kv(c[0].args[0], 'kResilveringEnabledKey', rkey), s, 'reads its key', f['file'], p)
        if not c:
            continue
        st, v = result(c[0]), outv(c[0], 1)
        n += 1
        nf = F.entails(ne(('call', 'rocksdb::Status::IsNotFound', st), ZERO))
        if b:
            cx.ob(nf or F.entails(ok(st)) and F.entails(eq(v, ('s', 'TRUE'))), s, 'enabled by default or when set', f['file'], p)
        else:
            cx.ob(F.entails(ok(st)) and F.entails(eq(v, ('s', 'FALSE'))), s, 'disabled only when set so', f['file'], p)
    cx.ob(n > 0, s, 'reads the flag')
    for p in cx.paths(f, opaque=('~StateMachine::',)):
        c = p.calls('~StateMachine::configGet$')
        if c and p.outcome == 'throw':
            st, v = result(c[0]), outv(c[0], 1)
            F = p.facts
            cx.ob(F.entails(eq(('call', 'rocksdb::Status::IsNotFound', st), ZERO)) and (F.entails(tneg(ok(st))) or F.entails(ne(v, ('s', 'TRUE'))) and F.entails(ne(v, ('s', 'FALSE')))), s, 'fails only on a flag that is not one', f['file'], p)
        elif p.outcome != 'throw':
            cx.ob(p.outcome == 'return' and p.val is not None, s, 'always decides', f['file'], p)
    f = cx.fn(RC + 'setResilveringEnabled')
    for p in cx.paths(f, pure=('~boolToString$',)):
        w = request_words(p)
        cx.ob(len(w) == 3 and w[:2] == [('s', 'CONFIG_SET'), ('s', rkey)] and is_call(w[2], '~boolToString$') and w[2][2] == P(f, 0), 'setResilveringEnabled', 'stores the flag under its key', f['file'], p)
    f = cx.fn('quarkdb::boolToString')
    for p in cx.paths(f):
        F = p.facts
        cx.ob(p.val == ('s', 'TRUE') and F.entails(ne(P(f, 0), ZERO)) or p.val == ('s', 'FALSE') and F.entails(eq(P(f, 0), ZERO)), 'boolToString', 'is what getResilveringEnabled reads', f['file'], p)
