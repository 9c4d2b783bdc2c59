"""The offline recovery tools: C15."""
from qdb.common import *
from rules.r_serve import st_ok, st_missing
from rules.r_net import rloc

Q = 'quarkdb::'
RE = Q + 'RecoveryEditor::'
RD = Q + 'RecoveryDispatcher::'
FM = Q + 'Formatter::'
RQ = Q + 'RedisRequest::'
CMD = Q + 'RedisCommand::'
KEY = {'cluster': ('s', 'RAFT_CLUSTER_ID'), 'members': ('s', 'RAFT_MEMBERS'), 'epoch': ('s', 'RAFT_MEMBERSHIP_EPOCH'),
       'pm': ('s', 'RAFT_PREVIOUS_MEMBERS'), 'pe': ('s', 'RAFT_PREVIOUS_MEMBERSHIP_EPOCH')}
DISP = ('~RecoveryEditor::', '~Formatter::', '~parseScanCommand$', '~RaftMembers::', '~handleConversion$', '~intToBinaryString$')
# command -> (number of words or None, editor's method, words passed to it)
SERVED = {'RECOVERY_GET': (2, 'get', (1,)), 'RECOVERY_SET': (3, 'set', (1, 2)), 'RECOVERY_DEL': (2, 'del', (1,)), 'RECOVERY_INFO': (1, 'retrieveMagicValues', ()),
          'RECOVERY_SCAN': (None, 'scan', None), 'RECOVERY_GET_ALL_VERSIONS': (2, 'getAllVersions', (1,))}
EDITS = ('set', 'del')


def inside(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(inside(c, x) for c in t)


def words(f):
    return ('.', P(f, 0), RQ + 'contents')


def word(f, i):
    return ('call', '[]', words(f), C(i))


def edits(p):
    return [e for e in p.events if e.kind == 'call' and e.name and e.name.startswith(RE) and '~' not in e.name]


def reply(v):
    """name and arguments of the Formatter call which made v"""
    if isinstance(v, tuple) and v[:1] == ('call',) and v[1].startswith(FM):
        return v[1][len(FM):], v[2:]
    if isinstance(v, tuple) and v[:1] == ('ret',) and v[2].startswith(FM):
        return v[2][len(FM):], v[4]
    return None, ()


def invalid(st):
    return ne(('call', 'rocksdb::Status::IsInvalidArgument', st), ZERO)


def main(cx):
    f = [g for g in cx.p.fns(RD + 'dispatch') if len(g['params']) == 1]
    cx.need(f, 'RecoveryDispatcher::dispatch')
    return f[0], list(cx.paths(f[0], opaque=DISP))


@rule('C15', 'served', 'only recovery commands are served, each by its own edit, with the words it was given')
def c15_served(cx):
    f, ps = main(cx)
    s = f['name']
    cmd, typ = ('.', P(f, 0), RQ + 'command'), ('.', P(f, 0), RQ + 'commandType')
    rec = ('e', Q + 'CommandType::RECOVERY')
    seen = set()
    for p in ps:
        F = p.facts
        ed = edits(p)
        conv = [e for e in p.events if e.kind == 'call' and e.name and e.name.endswith('::handleConversion')]
        nm, a = reply(p.val)
        if conv:
            cx.ob(any(F.entails(eq(cmd, ('e', CMD + x))) for x in ('CONVERT_STRING_TO_INT', 'CONVERT_INT_TO_STRING')) and not ed, s, 'only the two conversions are served besides', f['file'], p)
            cx.ob(p.outcome == 'return' and p.val == conv[0].ret, s, 'a conversion is answered with its result', f['file'], p)
            continue
        if p.outcome == 'return' and nm not in ('err', 'errArgs'):
            cx.ob(ed, s, 'anything but an error is the answer of an edit', f['file'], p)
        if not ed:
            continue
        cx.ob(F.entails(eq(typ, rec)), s, 'the command belongs to the recovery set', f['file'], p)
        which = [x for x in list(SERVED) + ['RECOVERY_FORCE_RECONFIGURE_JOURNAL'] if F.entails(eq(cmd, ('e', CMD + x)))]
        cx.ob(len(which) == 1, s, 'an edit is done for a command known', f['file'], p)
        if len(which) != 1 or which[0] not in SERVED:
            continue
        n, meth, ws = SERVED[which[0]]
        cx.ob(len(ed) == 1 and ed[0].name == RE + meth, s, f'{which[0]} does its own edit, once', f['file'], p)
        e = ed[0]
        if e.name != RE + meth:
            continue
        if n is not None:
            cx.ob(e.facts.entails(eq(('call', 'size', words(f)), C(n))), s, f'{which[0]} takes {n} words', e.where(), p)
        else:
            cx.ob(e.facts.entails(ge(('call', 'size', words(f)), C(2))), s, f'{which[0]} takes words', e.where(), p)
        if ws is not None:
            cx.ob(tuple(e.args[:len(ws)]) == tuple(word(f, i) for i in ws), s, f'{which[0]} passes its words on', e.where(), p)
        if p.outcome != 'return':
            continue
        if meth == 'scan':
            ok = nm == 'scan' and len(a) == 2 and inside(a[1], ('out', e.n, e.name, 3, ())) and (a[0] == ('s', '0') or inside(a[0], ('out', e.n, e.name, 2, ())))
            if nm == 'scan' and a and a[0] == ('s', '0'):
                cur = ('out', e.n, e.name, 2, ())
                ok = ok and any(F.entails(x) for x in (eq(cur, ('s', '')), eq(size(cur), ZERO), ne(('call', 'empty', cur), ZERO)))
            cx.ob(ok or nm == 'fromStatus', s, 'a scan is answered with what was found, and where to go on', f['file'], p)
        elif meth == 'get':
            cx.ob(nm == 'fromStatus' or nm == 'string' and a == (('out', e.n, e.name, 1, ()),), s, 'a value read is what is answered', f['file'], p)
        elif meth == 'getAllVersions':
            cx.ob(nm == 'fromStatus' or nm == 'vector' and a == (('out', e.n, e.name, 1, ()),), s, 'the versions found are what is answered', f['file'], p)
        elif meth == 'retrieveMagicValues':
            cx.ob(nm == 'vector' and a == (e.ret,), s, 'the values found are what is answered', f['file'], p)
        if nm == 'fromStatus' or p.outcome == 'return':
            seen.add((which[0], nm))
    for w in SERVED:
        cx.ob(any(x == w for x, _ in seen), s, f'{w} is served', f['file'])


@rule('C15', 'reported', 'an edit which fails is answered as failed')
def c15_reported(cx):
    f, ps = main(cx)
    s = f['name']
    n = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        F = p.facts
        nm, a = reply(p.val)
        for e in edits(p):
            if e.name == RE + 'retrieveMagicValues':
                continue
            n += 1
            gone = e.name == RE + 'del' and e.args[0] in (KEY['pm'], KEY['pe']) and F.entails(invalid(e.ret))
            cx.ob(nm == 'fromStatus' and a == (e.ret,) or nm in ('err', 'errArgs') or F.entails(st_ok(e.ret)) or gone, s, 'its status is the answer, or was fine', e.where(), p)
    cx.ob(n >= 6, s, 'the edits are there', f['file'])
    g = cx.fn(FM + 'fromStatus')
    for p in returns(cx.paths(g, opaque=('~Formatter::(ok|err)$',))):
        nm, a = reply(p.val)
        if nm == 'ok':
            cx.ob(p.facts.entails(st_ok(P(g, 0))), g['name'], 'OK stands for a fine status', g['file'], p)
        else:
            cx.ob(nm == 'err', g['name'], 'anything else is an error', g['file'], p)


@rule('C15', 'force', 'a forced reconfiguration needs a new cluster id and known members, and sets everything')
def c15_force(cx):
    f, ps = main(cx)
    s = f['name']
    cmd = ('.', P(f, 0), RQ + 'command')
    force = ('e', CMD + 'RECOVERY_FORCE_RECONFIGURE_JOURNAL')
    done = 0
    for p in ps:
        if not p.facts.entails(eq(cmd, force)):
            continue
        ed = edits(p)
        for e in ed:
            if e.name[len(RE):] not in EDITS:
                continue
            F = e.facts
            cx.ob(F.entails(eq(('call', 'size', words(f)), C(3))), s, 'changes need three words', e.where(), p)
            parsed = [c for c in p.events if c.kind == 'call' and c.name and c.name.endswith('RaftMembers::parse') and c.args[:1] == (word(f, 1),) and p.index(c) < p.index(e)]
            cx.ob(any(F.entails(ne(c.ret, ZERO)) for c in parsed), s, 'changes need members which parse', e.where(), p)
            old = [c for c in ed if c.name == RE + 'get' and c.args[:1] == (KEY['cluster'],) and p.index(c) < p.index(e)]
            cx.ob(any(F.entails(st_ok(c.ret)) and F.entails(ne(word(f, 2), ('out', c.n, c.name, 1, ()))) for c in old), s, 'changes need a cluster id different from the one there', e.where(), p)
            if e.name == RE + 'set':
                cx.ob(tuple(e.args) in ((KEY['cluster'], word(f, 2)), (KEY['members'], word(f, 1)), (KEY['epoch'], ('call', Q + 'intToBinaryString', ZERO))), s, 'sets the id, the members or the epoch', e.where(), p)
            else:
                cx.ob(e.args[0] in (KEY['pm'], KEY['pe']), s, 'deletes the pending change only', e.where(), p)
        nm, a = reply(p.val)
        if p.outcome != 'return' or nm != 'ok':
            cx.ob(p.outcome != 'return' or nm in ('err', 'errArgs') or nm == 'fromStatus' and len(a) == 1 and p.facts.entails(eq(('call', 'rocksdb::Status::ok', a[0]), ZERO)), s, 'otherwise an error', f['file'], p)
            continue
        done += 1
        got = [tuple(e.args) for e in ed if e.name == RE + 'set'] + [tuple(e.args[:1]) for e in ed if e.name == RE + 'del']
        want = [(KEY['cluster'], word(f, 2)), (KEY['members'], word(f, 1)), (KEY['epoch'], ('call', Q + 'intToBinaryString', ZERO)), (KEY['pm'],), (KEY['pe'],)]
        cx.ob(sorted(map(str, got)) == sorted(map(str, want)), s, 'OK means: id, members and epoch set, the pending change discarded', f['file'], p)
    cx.ob(done, s, 'it is possible to reconfigure', f['file'])


@rule('C15', 'editor', "the editor's operations say what the storage engine said")
def c15_editor(cx):
    for meth, op in (('get', 'Get'), ('set', 'Put'), ('del', 'Delete'), ('scan', 'NewIterator'), ('getAllVersions', 'GetAllKeyVersions')):
        f = cx.fn(RE + meth)
        s = f['name']
        n = 0
        for p in returns(cx.paths(f)):
            F = p.facts
            v = p.val
            okay = isinstance(v, tuple) and v[:1] == ('ret',) and v[2] == 'rocksdb::Status::OK'
            ops = [e for e in p.events if e.kind == 'call' and e.name and (e.name.startswith('rocksdb::DB::') or e.name == 'rocksdb::GetAllKeyVersions')]
            for e in ops:
                if e.name.endswith('::NewIterator'):
                    n += 1
                    st = [l for l in [v] if isinstance(l, tuple) and l[:1] == ('call',) and l[1].endswith('Iterator::status')]
                    fine = any(t[:1] == ('call',) and t[1] == 'rocksdb::Status::ok' and isinstance(t[2], tuple) and t[2][:2] == ('call', 'rocksdb::Iterator::status') and F.entails(ne(t, ZERO)) for t in _lits(F))
                    cx.ob(st or okay and fine, s, "the end of the listing carries the iterator's status", e.where(), p)
                    continue
                if e.name.endswith('::' + op):
                    n += 1
                missing = F.entails(st_missing(e.ret)) and isinstance(v, tuple) and v[:1] in (('ret',), ('call',)) and 'rocksdb::Status::' in str(v[1:3]) and not okay
                told = v == e.ret or F.entails(st_ok(e.ret)) or missing or inside(v, ('call', 'rocksdb::Status::ToString', e.ret)) and not okay
                cx.ob(told, s, 'the status returned is that of the storage engine', e.where(), p)
                if meth in ('get', 'set', 'del'):
                    cx.ob(e.args[1:2] == (P(f, 0),), s, 'the key given is the key used', e.where(), p)
                if meth == 'set':
                    cx.ob(e.args[2:3] == (P(f, 1),), s, 'the value given is the value written', e.where(), p)
                if meth == 'getAllVersions':
                    cx.ob(tuple(e.args[1:3]) == (P(f, 0), P(f, 0)), s, 'the key given is the key looked up', e.where(), p)
            if meth == 'get':
                outs_ = [e.ret for e in ops if e.name.endswith('::Get')]
                cx.ob(v in outs_, s, 'the lookup is what is returned', f['file'], p)
            if meth in ('set',) and okay:
                cx.ob(any(e.name.endswith('::' + op) for e in ops), s, 'done if OK is said', f['file'], p)
            if meth == 'del' and (okay or any(v == e.ret and e.name.endswith('::Get') and not F.refutes(st_ok(v)) for e in ops)):
                cx.ob(any(e.name.endswith('::Delete') for e in ops), s, 'deleted if OK is said', f['file'], p)
        cx.ob(n, s, 'asks the storage engine', f['file'])
    f = cx.fn(RE + 'scan')
    more = 0
    for p in returns(cx.paths(f)):
        seek = [e for e in p.events if e.kind == 'call' and e.name and e.name.startswith('rocksdb::Iterator::Seek')]
        cx.ob(len(seek) == 1 and seek[0].name == 'rocksdb::Iterator::Seek' and tuple(seek[0].args) == (P(f, 0),), f['name'], 'the listing starts at the key given', f['file'], p)
        adds = [e for e in p.events if e.kind == 'call' and e.name and e.name.endswith(('::emplace_back', '::push_back'))]
        valid = [t for t in _lits(p.facts) if t[:1] == ('call',) and t[1] == 'rocksdb::Iterator::Valid']
        ended = [t for t in valid if p.facts.entails(eq(t, ZERO))]
        if adds:
            nxt = [e for e in p.events if e.kind == 'call' and e.name == 'rocksdb::Iterator::Next']
            cx.ob(len(nxt) == 1 and len(adds) == 3, f['name'], 'each entry is listed once, with type, key and value', f['file'], p)
            more += 1
        cur = p.final(rloc(f, 2))
        told = cur is not None and cur != P(f, 2) and '::key' in str(cur) and cur[:1] != ('hav',)
        cx.ob(ended or told, f['name'], 'a listing cut short says where to go on', f['file'], p)
        cnt = _counters(p, P(f, 1))
        if adds:
            cx.ob(any(adds[0].facts.entails(more_) for more_, _, step in cnt if step), f['name'], 'no more entries than asked for', f['file'], p)
        if told:
            cx.ob(any(p.facts.entails(full) for _, full, _ in cnt), f['name'], 'a listing is cut short at the number asked for', f['file'], p)
            cx.ob(not ended, f['name'], 'a listing which is complete does not go on', f['file'], p)
    cx.ob(more, f['name'], 'entries are listed', f['file'])
    for c in cx.p.fns(RE + 'RecoveryEditor'):
        if not c['params'] or c['params'][0]['t'].find('RecoveryEditor') >= 0:
            continue
        for p in cx.paths(c):
            op = [e for e in p.events if e.kind == 'call' and e.name == 'rocksdb::DB::Open']
            cx.ob(len(op) == 1, c['name'], 'opens one database', c['file'], p)
            for e in op:
                cx.ob(e.args[1] == P(c, 0), c['name'], 'opens what was named', e.where(), p)
                cx.ob(inside(e.args[0], ('rocksdb::DBOptions::create_if_missing', C(False))) or 'create_if_missing' not in str(e.args[0]), c['name'], 'never creates a database', e.where(), p)
                if p.outcome == 'return':
                    cx.ob(p.facts.entails(st_ok(e.ret)), c['name'], 'nothing is edited unless it could be opened', e.where(), p)


def _lits(F):
    return [t for l in F.all() if l[0] not in ('and', 'or') for t, k in l[1]]



def _counters(p, n):
    """loop variables which count from zero to n, or from n to zero: (more are wanted, enough, it moves by one)"""
    out = []
    for e in p.events:
        if e.kind != 'loop' or e.info != 'begin':
            continue
        lid = e.val[1]
        ends = [x for x in loop_events(p, lid) if x.info == 'iterend']
        for v, ent, cur in e.args or ():
            last = [b for x in ends for v2, _, b in x.args or () if v2 == v]
            if ent == ZERO or is_zero(ent):
                out.append((lt(cur, n), ge(cur, n), any(p.facts.eqv(b, add(cur, C(1))) for b in last)))
            elif ent == n:
                out.append((gt(cur, ZERO), le(cur, ZERO), any(p.facts.eqv(b, sub(cur, C(1))) for b in last)))
    return out


@rule('C15', 'values', 'what is shown of a store is all there is to show')
def c15_values(cx):
    f = cx.fn(RE + 'retrieveMagicValues')
    s = f['name']
    allk = lambda x: x == ('gv', Q + 'KeyConstants::allKeys') or x == ('init', ('g', Q + 'KeyConstants::allKeys'))
    n = {'ok': 0, 'bad': 0}
    for p in returns(cx.paths(f)):
        get = [e for e in p.events if e.kind == 'call' and e.name == 'rocksdb::DB::Get']
        adds = [e for e in p.events if e.kind == 'call' and e.name and e.name.endswith(('::emplace_back', '::push_back'))]
        lids = [e.val[1] for e in p.events if e.kind == 'loop' and e.info == 'begin']
        for e in get:
            k = e.args[1]
            cx.ob(visits(p, lids, k, allk), s, 'every key known is looked up', e.where(), p)
            v = ('out', e.n, e.name, 2, ())
            if p.facts.entails(st_ok(e.ret)):
                n['ok'] += 1
                cx.ob(len(adds) == 2 and adds[0].args == (k,) and adds[1].args == (v,), s, 'a value found is shown after its key', e.where(), p)
            else:
                n['bad'] += 1
                cx.ob(len(adds) == 1 and inside(adds[0].args, k) and inside(adds[0].args, ('call', 'rocksdb::Status::ToString', e.ret)), s, 'a failure is shown with its key', e.where(), p)
    cx.ob(n['ok'] and n['bad'], s, 'values are looked up', f['file'])
    f = cx.fn(RE + 'getAllVersions')
    s = f['name']
    n = 0
    for p in returns(cx.paths(f)):
        adds = [e for e in p.events if e.kind == 'call' and e.name and e.name.endswith(('::emplace_back', '::push_back'))]
        lids = [e.val[1] for e in p.events if e.kind == 'loop' and e.info == 'begin']
        if not adds:
            continue
        n += 1
        src = [('out', e.n, e.name, 4, ()) for e in p.events if e.kind == 'call' and e.name == 'rocksdb::GetAllKeyVersions']
        for fld in ('user_key', 'value', 'sequence', 'type'):
            got = [t for a in adds for t in subterms(a.args) if t[:1] == ('.',) and t[2] == 'rocksdb::KeyVersion::' + fld]
            cx.ob(len(got) == 1 and visits(p, lids, got[0], lambda x: x in src), s, f'the {fld} of every version is listed', f['file'], p)
    cx.ob(n, s, 'versions are listed', f['file'])
