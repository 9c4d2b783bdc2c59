"""Copies of the data: snapshots, checkpoints (F04) and resilvering (F01)."""
from qdb.common import *
from rules.r_serve import st_ok
from rules.r_recovery import inside

Q = 'quarkdb::'
SD = Q + 'ShardDirectory::'
RR = Q + 'RaftResilverer::'
SH = Q + 'Shard::'
PJ = Q + 'pathJoin'
PATH = this(SD + 'path')
OPQ_ = ('~quarkdb::StateMachine::', '~quarkdb::RaftJournal::', '~getStateMachine$', '~getRaftJournal$', '~quarkdb::mkpath', '~rename_directory', '~directoryExists$', '~write_file',
        '~ensureSameFilesystem$', '~ResilveringHistory::', '~ResilveringEvent::', '~ShardDirectory::detach$', '~storeResilveringHistory$')
CK_SM, CK_J = Q + 'StateMachine::checkpoint', Q + 'RaftJournal::checkpoint'


def join(a, *bs):
    for b in bs:
        a = ('call', PJ, a, b if isinstance(b, tuple) else ('s', b))
    return a


def calls_(p, *names):
    return [e for e in p.events if e.kind == 'call' and e.name in names]


def slash(v):
    return (('cat', (v, ('s', '/'))), ('cat', tuple(v[1]) + (('s', '/'),)) if v[:1] == ('cat',) else None)


@rule('F04', 'copy', 'a checkpoint of a database is good only if the storage engine says so')
def f04_copy(cx):
    for cls in ('StateMachine', 'RaftJournal'):
        f = cx.fn(Q + cls + '::checkpoint')
        n = 0
        for p in returns(cx.paths(f)):
            mk = calls_(p, 'rocksdb::Checkpoint::Create')
            do = calls_(p, 'rocksdb::Checkpoint::CreateCheckpoint')
            if not do:
                cx.ob(any(p.val == e.ret and p.facts.entails(tneg(st_ok(e.ret))) for e in mk), f['name'], 'nothing is copied only if that is impossible, which is reported', f['file'], p)
                continue
            n += 1
            e = do[0]
            cx.ob(len(do) == 1 and len(mk) == 1 and e.facts.entails(st_ok(mk[0].ret)), f['name'], 'copied once, by a checkpoint which exists', e.where(), p)
            cx.ob(e.args[0] == P(f, 0), f['name'], 'copied to the place named', e.where(), p)
            cx.ob(len(e.args) < 2 or e.args[1] == ZERO, f['name'], 'the log is flushed into the copy', e.where(), p)
            cx.ob(p.val == e.ret or p.facts.entails(st_ok(e.ret)) and isinstance(p.val, tuple) and p.val[:1] == ('ret',) and p.val[2] == 'rocksdb::Status::OK', f['name'], 'the outcome is reported', e.where(), p)
            db = mk[0].args[0]
            cx.ob(inside(db, this(Q + cls + '::db')) or inside(db, thisloc(Q + cls + '::db')), f['name'], 'it is a copy of this database', mk[0].where(), p)
        cx.ob(n, f['name'], 'copies', f['file'])


def parts(cx, f, p, base, good, where):
    """both databases of a good copy were written below base, the state machine first"""
    s = f['name']
    F = p.facts
    sm, j = calls_(p, CK_SM), calls_(p, CK_J)
    if good:
        cx.ob(len(sm) == 1 and F.entails(st_ok(sm[0].ret)), s, 'good only if the state machine was copied', where, p)
    for e in sm + j:
        cx.ob(e.args[0] == join(base, 'state-machine' if e.name == CK_SM else 'raft-journal'), s, 'each database has its own place in the copy', e.where(), p)
        src = Q + ('ShardDirectory::getStateMachine' if e.name == CK_SM else 'ShardDirectory::getRaftJournal')
        fld = this(SD + ('smptr' if e.name == CK_SM else 'journalptr'))
        o = e.obj
        cx.ob(any(inside(o, c.ret) for c in calls_(p, src)) or inside(o, fld), s, 'the live databases are copied', e.where(), p)
        cx.ob(F.entails(st_ok(e.ret)) or not good, s, 'good only if every part was copied', e.where(), p)
    if sm and j:
        cx.ob(p.index(sm[0]) < p.index(j[0]), s, 'the state machine is copied before the journal, which then reaches at least as far', j[0].where(), p)
    elif j:
        cx.ob(False, s, 'the state machine is copied before the journal', j[0].where(), p)
    return sm, j


@rule('F04', 'snapshot', 'a snapshot is handed out only if both of its parts are complete')
def f04_snapshot(cx):
    f = cx.fn(SD + 'takeSnapshot')
    s = f['name']
    n = 0
    base = join(PATH, 'temp-snapshots', P(f, 0))
    for p in returns(cx.paths(f, opaque=OPQ_)):
        v = p.val
        none = v == ('null',) or v == ZERO
        mk = calls_(p, Q + 'mkpath', Q + 'mkpath_or_die')
        sm, j = parts(cx, f, p, base, not none, f['file'])
        if none:
            cx.ob(any(p.facts.entails(eq(e.ret, ZERO)) for e in mk if e.ret is not None) or any(p.facts.entails(tneg(st_ok(e.ret))) for e in sm + j), s, 'refused only if some part failed', f['file'], p)
            continue
        n += 1
        cx.ob(len(j) == 1, s, 'the journal is part of a snapshot', f['file'], p)
        cx.ob(any(e.args[0] in slash(base) and (e.name.endswith('_or_die') or p.facts.entails(ne(e.ret, ZERO))) for e in mk), s, 'there is a place for it', f['file'], p)
        made = [e for e in p.events if e.kind == 'call' and e.name == Q + 'ShardSnapshot::ShardSnapshot']
        cx.ob(len(made) == 1 and made[0].args[:1] == (base,), s, 'the snapshot names that place', f['file'], p)
    cx.ob(n, s, 'snapshots are possible', f['file'])
    g = cx.fn(Q + 'ShardSnapshot::getPath')
    for p in returns(cx.paths(g)):
        cx.ob(p.val == this(Q + 'ShardSnapshot::path'), g['name'], 'the place is the one named', g['file'], p)


@rule('F04', 'checkpoint', 'a checkpoint is reported good only if everything in it was written, to a new place')
def f04_checkpoint(cx):
    f = cx.fn(SD + 'checkpoint')
    s = f['name']
    pth = P(f, 0)
    n = 0
    want = {join(pth, 'RESILVERING-HISTORY'), join(pth, 'SHARD-ID')}
    for p in returns(cx.paths(f, opaque=OPQ_)):
        F = p.facts
        v = p.val
        good = v in (('s', ''), ('ctor', 'std::string', ()))
        mk = calls_(p, 'mkdir')
        fs = calls_(p, Q + 'ensureSameFilesystem')
        sm, j = parts(cx, f, p, join(pth, 'current'), good, f['file'])
        wr_ = calls_(p, Q + 'write_file', Q + 'write_file_or_die')
        fsok = lambda e: F.entails(eq(('.', e.ret, Q + 'Status::errcode'), ZERO)) or F.entails(ne(('call', Q + 'Status::ok', e.ret), ZERO))
        if not good:
            why = any(F.entails(ne(e.ret, ZERO)) for e in mk) or any(not fsok(e) for e in fs) or any(F.entails(tneg(st_ok(e.ret))) for e in sm + j) or any(e.ret is not None and F.entails(eq(e.ret, ZERO)) for e in wr_)
            cx.ob(why, s, 'refused only if a step failed', f['file'], p)
            bad = [e for e in wr_ if e.ret is not None and F.entails(eq(e.ret, ZERO))]
            cx.ob(isinstance(v, tuple) and (v[:1] == ('cat',) and any(isinstance(x, tuple) and x[:1] == ('s',) and x[1] for x in v[1]) or v[:1] == ('s',) and v[1] or any(v == ('out', e.n, e.name, 2, ()) for e in bad)), s, 'the reason is not empty', f['file'], p)
            continue
        n += 1
        for d in (pth, join(pth, 'current')):
            mine = [e for e in mk if e.args[0] == d]
            cx.ob(len(mine) == 1 and F.entails(eq(mine[0].ret, ZERO)), s, 'the place did not exist before', f['file'], p)
        cx.ob(any(set(e.args) == {pth, PATH} and fsok(e) for e in fs), s, 'the place is on the same filesystem', f['file'], p)
        ptr = this(SD + 'journalptr')
        cx.ob(len(j) == 1 or len(j) == 0 and F.entails(eq(ptr, ZERO)), s, 'the journal is part of it if there is one', f['file'], p)
        for w in want:
            mine = [e for e in wr_ if e.args[0] == w]
            cx.ob(len(mine) == 1 and (mine[0].name.endswith('_or_die') or F.entails(ne(mine[0].ret, ZERO))), s, 'history and identity were written', f['file'], p)
        for e in wr_:
            if e.args[0] == join(pth, 'SHARD-ID'):
                cx.ob(e.args[1] == this(SD + 'shardID'), s, 'the identity is the one of the shard', e.where(), p)
            elif e.args[0] == join(pth, 'RESILVERING-HISTORY'):
                src = [c for c in p.events if c.kind == 'call' and c.name and c.name.endswith('ResilveringHistory::serialize')]
                cx.ob(any(e.args[1] == c.ret for c in src) or 'ResilveringHistory::serialize' in str(e.args[1]) and SD + 'resilveringHistory' in str(e.args[1]), s, 'the history is the one of the shard', e.where(), p)
    cx.ob(n, s, 'checkpoints are possible', f['file'])
    g = [x for x in cx.p.fns(Q + 'QuarkDBNode::dispatch') if len(x['params']) == 2 and 'RedisRequest' in x['params'][1]['t']]
    cx.need(g, 'QuarkDBNode::dispatch')
    g = g[0]
    asked = 0
    for p in cx.paths(g, opaque=('~quarkdb::(?!QuarkDBNode::dispatch|RedisRequest::|Shard::(?!dispatch|getHealth)|InFlightRegistration::)',)):
        ck = calls_(p, SD + 'checkpoint')
        for e in ck:
            asked += 1
            up = [c for c in p.events if c.kind == 'call' and c.name == Q + 'InFlightTracker::up' and c.n < e.n and c.ret is not None and e.facts.entails(ge(c.ret, ZERO))]
            gone = [c for c in p.events if c.kind == 'call' and c.name == Q + 'InFlightTracker::down' and c.n < e.n]
            reg = len(up) > len(gone)
            cx.ob(reg or held(e, SH + 'raftGroupMtx'), g['name'] + ' QUARKDB_CHECKPOINT', 'the databases cannot be closed while they are copied', e.where(), p)
            rep = [c for c in p.events if c.kind == 'call' and c.name and c.name.startswith(Q + 'Connection::') and p.index(c) > p.index(e)]
            names = [c.name.split('::')[-1] for c in rep]
            empty = p.facts.entails(eq(e.ret, ('s', ''))) or p.facts.entails(eq(size(e.ret), ZERO)) or p.facts.entails(ne(('call', 'empty', e.ret), ZERO))
            cx.ob('ok' not in names or empty, g['name'], 'OK is answered only if there was no error', e.where(), p)
            cx.ob('ok' in names or 'err' in names, g['name'], 'the outcome is answered', e.where(), p)
            cx.ob(len(e.args) == 1 and e.args[0] == ('call', '[]', ('.', P(g, 1), Q + 'RedisRequest::contents'), C(1)), g['name'], 'the place is the one asked for', e.where(), p)
    cx.ob(asked, g['name'], 'checkpoints are served', g['file'])


@rule('F01', 'arena', 'what is received stays below the place of its own transfer')
def f01_arena(cx):
    for nm in ('resilveringStart', 'resilveringCopy'):
        f = cx.fn(SD + nm)
        s = f['name']
        base = join(PATH, 'resilvering-arena', P(f, 0))
        yes = 0
        for p, r, F in bool_cases(cx.paths(f, opaque=OPQ_)):
            mk = calls_(p, Q + 'mkpath', Q + 'mkpath_or_die')
            wr_ = calls_(p, Q + 'write_file', Q + 'write_file_or_die')
            other = [e for e in p.events if e.kind == 'call' and e.name in (Q + 'rename_directory_or_die', SD + 'detach', 'system', 'rename', 'remove', 'unlink')]
            cx.ob(not other and not p.writes(SD + 'smptr', SD + 'journalptr'), s, 'the live data is left alone', f['file'], p)
            target = join(base, P(f, 1)) if nm == 'resilveringCopy' else None
            for e in mk:
                cx.ob(e.args[0] == target if target else e.args[0] in slash(base), s, 'directories are made below the place of this transfer', e.where(), p)
            for e in wr_:
                cx.ob(target is not None and e.args[0] == target and e.args[1] == P(f, 2), s, 'what is received is written below the place of this transfer', e.where(), p)
            okm = any(e.name.endswith('_or_die') or F.entails(ne(e.ret, ZERO)) for e in mk)
            okw = any(e.name.endswith('_or_die') or F.entails(ne(e.ret, ZERO)) for e in wr_)
            if r:
                yes += 1
                cx.ob(okm and (okw or not target), s, 'accepted only if it was written', f['file'], p)
            else:
                cx.ob(any(e.ret is not None and F.entails(eq(e.ret, ZERO)) for e in mk + wr_), s, 'refused only if it could not be written', f['file'], p)
        cx.ob(yes, s, 'a transfer is possible', f['file'])


@rule('F01', 'replace', 'the data is replaced by that of the transfer finished, after it was moved aside')
def f01_replace(cx):
    f = cx.fn(SD + 'resilveringFinish')
    s = f['name']
    arena, cur, old = join(PATH, 'resilvering-arena', P(f, 0)), join(PATH, 'current'), join(PATH, 'supplanted', P(f, 0))
    n = 0
    for p in cx.paths(f, opaque=OPQ_):
        F = p.facts
        ren = calls_(p, Q + 'rename_directory_or_die')
        ex = [e for e in calls_(p, Q + 'directoryExists') if e.args[0] == arena]
        det = calls_(p, SD + 'detach')
        there = any(F.entails(ne(e.ret, ZERO)) for e in ex)
        if ren or det:
            first = min(p.index(e) for e in ren + det)
            cx.ob(any(p.index(e) < first and F.entails(ne(e.ret, ZERO)) for e in ex), s, 'nothing happens unless the transfer is known', f['file'], p)
        for e in p.events:
            if e.kind == 'call' and e.name in ('system', 'remove', 'unlink', 'rmdir', 'rename', SD + 'wipeoutStateMachineContents'):
                cx.ob(False, s, 'nothing is deleted', e.where(), p)
        if ren:
            cx.ob(det and p.index(det[0]) < p.index(ren[0]), s, 'the databases are closed before their files are moved', ren[0].where(), p)
            cx.ob(tuple(ren[0].args) == (cur, old), s, 'the old data is moved aside first', ren[0].where(), p)
            mk = [e for e in calls_(p, Q + 'mkpath_or_die', Q + 'mkpath') if inside(e.args[0], old)]
            cx.ob(mk and p.index(mk[0]) < p.index(ren[0]), s, 'there is a place for the old data', ren[0].where(), p)
        if len(ren) > 1:
            cx.ob(len(ren) == 2 and tuple(ren[1].args) == (arena, cur), s, 'only then is the new data moved in', ren[1].where(), p)
        for e in p.calls('~getStateMachine$') + p.calls('~getRaftJournal$'):
            cx.ob(len(ren) == 2 and p.index(e) > p.index(ren[1]), s, 'opened again only after it is in place', e.where(), p)
        if p.outcome != 'return':
            continue
        for r, G in ((True, x) for x in F.with_(ne(p.val, ZERO))) if p.val not in (C(True), C(False)) else ((p.val == C(True), F),):
            if not r:
                cx.ob(not ren and not det and not there, s, 'refused only for an unknown transfer, the data untouched', f['file'], p)
                continue
            n += 1
            cx.ob(len(ren) == 2 and len(det) == 1, s, 'finished means replaced', f['file'], p)
            ap = [e for e in p.events if e.kind == 'call' and e.name and e.name.endswith('ResilveringHistory::append')]
            st = calls_(p, SD + 'storeResilveringHistory')
            cx.ob(len(ap) == 1 and inside(ap[0].args, P(f, 0)), s, 'the transfer enters the history', f['file'], p)
            cx.ob(st and ap and p.index(st[-1]) > p.index(ap[-1]) > (p.index(ren[-1]) if ren else 0), s, 'the history is stored, after the data was replaced', f['file'], p)
    cx.ob(n, s, 'a transfer can be finished', f['file'])


@rule('F01', 'served', 'transfers are served to peers only, and finished with nobody using the data')
def f01_served(cx):
    f = [x for x in cx.p.fns(SH + 'dispatch') if len(x['params']) == 2 and 'RedisRequest' in x['params'][1]['t']]
    cx.need(f, 'Shard::dispatch')
    f = f[0]
    s = f['name']
    W = lambda i: ('call', '[]', ('.', P(f, 1), Q + 'RedisRequest::contents'), C(i))
    cmd = ('.', P(f, 1), Q + 'RedisRequest::command')
    table = {SD + 'resilveringStart': ('QUARKDB_START_RESILVERING', (1,)), SD + 'resilveringCopy': ('QUARKDB_RESILVERING_COPY_FILE', (1, 2, 3)), SD + 'resilveringFinish': ('QUARKDB_FINISH_RESILVERING', (1,))}
    seen = set()
    for p in cx.paths(f, opaque=('~quarkdb::(?!Shard::dispatch|RedisRequest::)',)):
        ev = [e for e in p.events if e.kind == 'call' and e.name in table]
        for e in ev:
            F = e.facts
            c, ws = table[e.name]
            seen.add(e.name)
            cx.ob(F.entails(eq(cmd, ('e', Q + 'RedisCommand::' + c))), s, 'each step of a transfer is its own command', e.where(), p)
            cx.ob(any(inside(l, Q + 'Connection::raftAuthorization') for l in F.all()) and _authorized(F, P(f, 0)), s, 'only an authorized peer may transfer', e.where(), p)
            got = tuple(_text(a) for a in e.args[:len(ws)])
            cx.ob(got == tuple(W(i) for i in ws), s, 'the words are passed on', e.where(), p)
            cx.ob(F.entails(eq(('call', 'size', ('.', P(f, 1), Q + 'RedisRequest::contents')), C(len(ws) + 1))), s, 'all words are there', e.where(), p)
            rep = [x for x in p.events if x.kind == 'call' and x.name and x.name.startswith(Q + 'Connection::') and p.index(x) > p.index(e)]
            nm = [x.name.split('::')[-1] for x in rep]
            if p.outcome == 'return':
                cx.ob(len(nm) == 1 and (nm[0] == 'ok' and p.facts.entails(ne(e.ret, ZERO)) or nm[0] == 'err' and p.facts.entails(eq(e.ret, ZERO))), s, 'OK is answered if it was done', e.where(), p)
            if e.name == SD + 'resilveringFinish':
                det = [x for x in calls_(p, SH + 'detach') if p.index(x) < p.index(e)]
                sta = [x for x in calls_(p, SH + 'start', SH + 'attach') if p.index(x) > p.index(e)]
                cx.ob(det and held(det[0], SH + 'raftGroupMtx') and held(e, SH + 'raftGroupMtx'), s, 'everybody lets go of the data before, and nobody comes back meanwhile', e.where(), p)
                if p.outcome == 'return':
                    cx.ob(len(sta) == 1 and held(sta[0], SH + 'raftGroupMtx'), s, 'service is taken up again', e.where(), p)
    cx.ob(seen == set(table), s, 'transfers are served', f['file'])


def _text(a):
    while isinstance(a, tuple) and a[:1] == ('ctor',) and len(a) > 2 and len(a[2]) == 1:
        a = a[2][0]
    return a


def _authorized(F, conn):
    for l in F.all():
        if l[0] in ('and', 'or'):
            continue
        for t, k in l[1]:
            if inside(t, Q + 'Connection::raftAuthorization') and F.entails(ne(t, ZERO)):
                return True
    return False


SEND = ('~OkResponseVerifier::', '~RaftTalker::', '~quarkdb::ShardDirectory::', '~setStatus$', '~countFiles', '~copyDirectory$', '~copyFile$', '~DirectoryIterator::', '~ShardSnapshot::')


def verified(F, p, fut):
    """the answer carried by fut was OK, by F"""
    for e in p.events:
        if e.kind == 'call' and e.name and e.name.endswith('OkResponseVerifier::ok') and e.ret is not None and inside(e.obj, fut) and F.entails(ne(e.ret, ZERO)):
            return True
    return False


@rule('F01', 'sender', 'a transfer is finished only after every file of a good snapshot was acknowledged')
def f01_sender(cx):
    f = cx.fn(RR + 'main')
    s = f['name']
    T = Q + 'RaftTalker::'
    rid = this(RR + 'resilveringID')
    n = 0
    for p in cx.paths(f, opaque=SEND):
        snap, st = calls_(p, SD + 'takeSnapshot'), calls_(p, T + 'resilveringStart')
        cp = calls_(p, RR + 'copyDirectory')
        fin = calls_(p, T + 'resilveringFinish')
        sta = calls_(p, RR + 'setStatus')
        for e in snap + st + fin:
            cx.ob(e.args[:1] == (rid,), s, 'one identifier throughout', e.where(), p)
        for e in cp:
            cx.ob(len(st) == 1 and verified(e.facts, p, st[0].ret), s, 'nothing is sent before the peer agreed', e.where(), p)
            gp = [x for x in p.events if x.kind == 'call' and x.name == Q + 'ShardSnapshot::getPath' and p.index(x) < p.index(e)]
            cx.ob(any(e.args[0] == x.ret and snap and inside(x.obj, snap[0].ret) for x in gp), s, 'the snapshot is what is sent', e.where(), p)
            cx.ob(e.args[1] == ('s', ''), s, 'all of it', e.where(), p)
            cx.ob(snap and _there(e.facts, snap[0].ret), s, 'there is a snapshot', e.where(), p)
        for e in fin:
            cx.ob(all(e.facts.entails(ne(x.ret, ZERO)) for x in p.events if x.kind == 'call' and x.name == Q + 'countFilesInDirectoryRecursively' and x.n < e.n), s, 'a step which failed ends it', e.where(), p)
            cx.ob(len(cp) == 1 and p.index(cp[0]) < p.index(e) and e.facts.entails(ne(cp[0].ret, ZERO)), s, 'finished only after all of it was sent', e.where(), p)
        ok = [e for e in sta if e.args[0] == ('e', Q + 'ResilveringState::SUCCEEDED')]
        bad = [e for e in sta if e.args[0] == ('e', Q + 'ResilveringState::FAILED')]
        for e in ok:
            n += 1
            cx.ob(len(fin) == 1 and verified(e.facts, p, fin[0].ret), s, 'succeeded only if the peer said so', e.where(), p)
        if p.outcome == 'return':
            cx.ob(len(ok) + len(bad) == 1, s, 'exactly one outcome', f['file'], p)
    cx.ob(n, s, 'a transfer can succeed', f['file'])
    f = cx.fn(RR + 'copyDirectory')
    s = f['name']
    yes = each = 0
    for p, r, F in bool_cases(cx.paths(f, opaque=SEND)):
        nx = calls_(p, Q + 'DirectoryIterator::next') or p.calls('~DirectoryIterator::next$')
        oks = p.calls('~DirectoryIterator::ok$')
        cps = calls_(p, RR + 'copyDirectory', RR + 'copyFile')
        for e in cps:
            each += 1
            G = e.facts
            names = [t for t in subterms(tuple(e.args)) if t[:1] == ('init',) and t[1][:1] == ('f',) and t[1][2] == 'dirent::d_name' and _found(p, t[1][1], nx)]
            cx.ob(names and len(set(names)) == 1, s, 'an entry is sent under its own name', e.where(), p)
            if not names:
                continue
            d = names[0]
            top = G.entails(eq(size(P(f, 1)), ZERO)) or G.entails(eq(P(f, 1), ('s', '')))
            below = lambda b: (('cat', (b, ('s', '/'), d)), join(b, d))
            cx.ob(e.args[0] in below(P(f, 0)), s, 'what is sent is the entry found', e.where(), p)
            cx.ob(e.args[1] == d if top else e.args[1] in below(P(f, 1)), s, 'below the name of its directory', e.where(), p)
            kind = ('init', ('f', d[1][1], 'dirent::d_type'))
            isdir = eq(kind, ('e', 'DT_DIR'))
            if e.name.endswith('copyDirectory'):
                cx.ob(G.entails(isdir), s, 'directories are sent as such', e.where(), p)
            else:
                cx.ob(not possible(G, isdir), s, 'directories are sent as such', e.where(), p)
            for dot in ('.', '..'):
                cmpd = [t for l in G.all() if l[0] not in ('and', 'or') for t, k in l[1] if t[:1] in (('call',), ('ret',)) and 'strcmp' in str(t[:3]) and inside(t, ('s', dot))]
                cx.ob(any(G.entails(ne(t, ZERO)) for t in cmpd) or G.entails(ne(d, ('s', dot))), s, 'not the directory itself or its parent', e.where(), p)
            if r:
                cx.ob(F.entails(ne(e.ret, ZERO)), s, 'complete only if every entry was sent', e.where(), p)
        if r:
            yes += 1
            cx.ob(any(F.entails(ne(e.ret, ZERO)) for e in oks), s, 'complete only if the directory could be read to its end', f['file'], p)
            for e in p.events:
                if e.kind == 'loop' and e.info == 'break':
                    cx.ob(False, s, 'no entry is left out', e.where(), p)
            its = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
            if its and not cps:
                cmpd = [t for l in F.all() if l[0] not in ('and', 'or') for t, k in l[1] if t[:1] in (('call',), ('ret',)) and 'strcmp' in str(t[:3])]
                cx.ob(any(F.entails(eq(t, ZERO)) and (inside(t, ('s', '.')) or inside(t, ('s', '..'))) for t in cmpd) or any(F.entails(eq(x, ('s', d))) for d in ('.', '..') for l in F.all() if l[0] == 'eq' for x, _ in l[1]),
                      s, 'only the directory itself and its parent are left out', f['file'], p)
    cx.ob(yes and each, s, 'directories are sent', f['file'])
    f = cx.fn(RR + 'copyFile')
    s = f['name']
    yes = 0
    for p, r, F in bool_cases(cx.paths(f, opaque=SEND + ('~quarkdb::readFile$',))):
        snd = calls_(p, T + 'resilveringCopy')
        rd = calls_(p, Q + 'readFile')
        for e in snd:
            cx.ob(e.args[:2] == (rid, P(f, 1)), s, 'sent under its name and the identifier of the transfer', e.where(), p)
            cx.ob(any(x.args[0] == P(f, 0) and e.args[2] == ('out', x.n, x.name, 1, ()) and e.facts.entails(ne(x.ret, ZERO)) for x in rd), s, 'what is sent is the whole file, read without error', e.where(), p)
        if r:
            yes += 1
            cx.ob(len(snd) == 1 and verified(F, p, snd[0].ret), s, 'sent only if the peer acknowledged it', f['file'], p)
    cx.ob(yes, s, 'files are sent', f['file'])


def _found(p, base, nx):
    """what next() answered: directly, or held by the variable of a loop"""
    ptr = base[1] if base[:1] == ('d',) else base
    got = [x.ret for x in nx]
    if ptr in got:
        return True
    for e in p.events:
        if e.kind == 'loop' and e.info == 'begin':
            for v, a, b in e.args or ():
                if b == ptr:
                    ends = [c for x in loop_events(p, e.val[1]) if x.info == 'iterend' for w, _, c in x.args or () if w == v]
                    return a in got and all(c in got for c in ends)
    return False


def _there(F, v):
    for l in F.all():
        if l[0] in ('and', 'or'):
            continue
        for t, k in l[1]:
            if inside(t, v) and t[:1] not in (('ret',), ('out',)) and 'redisReply::' not in str(t) and F.entails(ne(t, ZERO)):
                return True
    return F.entails(ne(v, ZERO))


@rule('F01', 'answers', 'an answer counts as OK only if it is the status OK, received in time')
def f01_answers(cx):
    f = [x for x in cx.p.fns('OkResponseVerifier::OkResponseVerifier') if len(x['params']) == 2]
    cx.need(f, 'OkResponseVerifier')
    f = f[0]
    s = f['name']
    err = thisloc('OkResponseVerifier::error')
    n = 0
    for p in returns(cx.paths(f)):
        v = p.final(err)
        F = p.facts
        fine = v in (None, ('s', ''), ('ctor', 'std::string', ()), this('OkResponseVerifier::error'))
        if not fine:
            cx.ob(v[:1] == ('cat',) and any(isinstance(x, tuple) and x[:1] == ('s',) and x[1] for x in v[1]) or v[:1] == ('s',) and v[1], s, 'a failure has a reason', f['file'], p)
            continue
        n += 1
        g = [e for e in p.events if e.kind == 'call' and e.name and e.name.endswith('future::get')]
        lits = [l for l in F.all() if l[0] not in ('and', 'or')]
        cx.ob(any(l[0] == 'eq' and 'wait_for' in str(l) and 'future_status::ready' in str(l) for l in lits), s, 'it arrived in time', f['file'], p)
        cx.ob(any(l[0] == 'eq' and any('redisReply::type' in str(t) for t, k in l[1]) for l in lits), s, 'it is a status', f['file'], p)
        cx.ob(any(l[0] == 'eq' and any(t == ('s', 'OK') for t, k in l[1]) for l in lits), s, 'it says OK', f['file'], p)
        cx.ob(g and _there(F, g[0].ret), s, 'there is an answer', f['file'], p)
    cx.ob(n, s, 'an answer can be fine', f['file'])
    o = cx.fn('OkResponseVerifier::ok')
    for p, r, F in bool_cases(cx.paths(o)):
        e_ = this('OkResponseVerifier::error')
        t = [eq(size(e_), ZERO), eq(e_, ('s', '')), ne(('call', 'empty', e_), ZERO)]
        cx.ob(any(F.entails(x) if r else F.entails(tneg(x)) for x in t), o['name'], 'OK means: no error', o['file'], p)


@rule('F01', 'identity', 'each transfer has an identifier of its own, made before anything is sent')
def f01_identity(cx):
    f = cx.fn(RR + 'RaftResilverer', pred=lambda x: len(x['params']) >= 2)
    n = 0
    for p in returns(cx.paths(f, opaque=SEND + ('~generateUuid$', '~AssistedThread::', '~RaftTrimmingBlock', '~std::'))):
        n += 1
        mk = [e for e in p.events if e.kind == 'call' and e.name and e.name.endswith('generateUuid')]
        run = [e for e in p.events if e.kind == 'call' and e.name and 'AssistedThread::' in e.name and e.name.endswith(('reset', 'AssistedThread'))]
        v = p.final(thisloc(RR + 'resilveringID'))
        cx.ob(any(v == e.ret for e in mk), f['name'], 'a fresh identifier is made', f['file'], p)
        cx.ob(all(any(e.n < r.n for e in mk) for r in run if 'mainThread' in str(r.obj) and r.args), f['name'], 'before the transfer starts', f['file'], p)
    cx.ob(n, f['name'], 'transfers can be made', f['file'])
    w = {x['name'] for x in writers(cx, RR + 'resilveringID')}
    cx.ob(not w - {f['name']}, f['name'], 'it is never changed', f['file'])
