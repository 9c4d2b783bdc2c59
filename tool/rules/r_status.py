"""No status of the storage engine is dropped, and no iteration which failed is taken for a complete one: S12."""
from qdb.common import *
from qdb.engine import TooComplex
from rules.r_serve import st_ok, st_missing
from rules.r_recovery import inside

Q = 'quarkdb::'
ST = 'rocksdb::Status'
SKIPFILES = ('bench/', 'tools/', 'test')


def bare(t):
    return (t or '').replace('const ', '').replace('&', '').strip()


def status_call(n):
    return isinstance(n, dict) and n.get('k') == 'call' and bare(n.get('rt')) == ST and not n.get('f', '').endswith('operator=')


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'tmp', 'bind', 'mat') and isinstance(n.get('e'), dict):
        n = n['e']
    if isinstance(n, dict) and n.get('k') == 'ctor' and n.get('c') == ST and len(n.get('a', ())) == 1:
        return strip(n['a'][0])
    return n


def never_fails(cx):
    """functions whose every result is Status::OK()"""
    fs = {k: f for k, f in cx.p.fn.items() if bare(f.get('ret')) == ST}
    good = set(fs)
    rets = {}
    for k, f in fs.items():
        rs = [strip(n.get('e')) for n in walk(f['body']) if n.get('k') == 'ret' or n.get('k') == 'return']
        rets[k] = rs
    while True:
        bad = set()
        for k in good:
            rs = rets[k]
            if not rs or not all(isinstance(r, dict) and r.get('k') == 'call' and (r.get('f') == ST + '::OK' or r.get('key') in good) for r in rs):
                bad.add(k)
        if not bad:
            return good
        good -= bad


def kids(s):
    """statements directly inside a statement, in order, and its own expressions"""
    return [(k, v) for k, v in s.items() if isinstance(v, (dict, list))]


def reads(n, vid, whole=None):
    """vid is looked at somewhere in n (being assigned to is not that)"""
    if isinstance(n, list):
        return any(reads(x, vid) for x in n)
    if not isinstance(n, dict):
        return False
    if n.get('k') == 'ref' and n.get('id') == vid:
        return True
    a = assigned(n)
    if a and a[0] == vid:
        return reads(a[1], vid)
    return any(reads(v, vid) for v in n.values() if isinstance(v, (dict, list)))


def assigned(n):
    """(variable, value) of an assignment expression to a local status"""
    if n.get('k') == 'call' and n.get('f', '') == ST + '::operator=':
        o = strip(n.get('o')) if n.get('o') else None
        if isinstance(o, dict) and o.get('k') == 'ref' and 'id' in o and n.get('a'):
            return o['id'], n['a'][0]
    if n.get('k') == 'asg' and isinstance(n.get('a'), dict) and n['a'].get('k') == 'ref':
        return n['a'].get('id'), n.get('b')
    return None


LOOPS = ('for', 'while', 'do', 'rfor', 'forrange', 'fr')


def stmt_assign(s):
    e = strip(s.get('e')) if s.get('k') == 'expr' else s if s.get('k') in ('call', 'asg') else None
    return assigned(e) if isinstance(e, dict) else None


def dropped(body):
    """[(node, reason)]: statuses nobody looks at"""
    out = []

    def block(seq, cont):
        """cont: list of (rest of the enclosing block, is it a loop body) from the inside out"""
        for i, s in enumerate(seq):
            stmt(s, [(seq[i + 1:], None)] + cont)

    def after(vid, cont):
        for rest, loop in cont:
            if loop is not None and reads(loop, vid):
                return True
            for s in rest:
                a = stmt_assign(s) if isinstance(s, dict) else None
                if a and a[0] == vid:
                    return reads(a[1], vid)
                if reads(s, vid):
                    return True
                if isinstance(s, dict) and s.get('k') in ('ret', 'return', 'throw'):
                    return False
        return False

    def stmt(s, cont):
        if not isinstance(s, dict):
            return
        k = s.get('k')
        if k == 'block':
            block(s.get('s', []), cont)
            return
        e = strip(s.get('e')) if k == 'expr' else s if k == 'call' else None
        if status_call(e):
            out.append((e, 'its status is dropped'))
            return
        a = stmt_assign(s)
        if a and status_call(strip(a[1])) and not after(a[0], cont):
            out.append((strip(a[1]), 'its status is not looked at'))
        if k == 'decl':
            for d in s.get('d', ()):
                if bare(d.get('t')) == ST and status_call(strip(d.get('e'))) and not after(d['id'], cont):
                    out.append((strip(d['e']), 'its status is not looked at'))
            return
        for key, v in s.items():
            if isinstance(v, dict) and v.get('k') and key not in ('e', 'c'):
                stmt(v, ([([], s)] if k in LOOPS else []) + cont)
            elif isinstance(v, list) and key not in ('a', 'd'):
                block([x for x in v if isinstance(x, dict)], ([([], s)] if k in LOOPS else []) + cont)

    stmt(body, [])
    # lambdas
    return out


@rule('S12', 'used', 'every status is looked at')
def s12_used(cx):
    fine = never_fails(cx)
    n = 0
    for k, f in sorted(cx.p.fn.items()):
        if f['file'].startswith(SKIPFILES):
            continue
        sts = [x for x in walk(f['body']) if status_call(x)]
        if not sts:
            continue
        n += len(sts)
        bad = {(id(x)): (x, why) for x, why in dropped(f['body'])}
        for x in sts:
            if id(x) in bad:
                callee = x.get('key', '')
                if callee in fine:
                    continue
                cx.ob(False, f"{f['name']} {x['f']}", bad[id(x)][1], f"{f['file']}:{x.get('l')}")
            else:
                cx.ob(True, f['name'], 'looked at', f['file'])
    cx.ob(n > 150, 'program', 'statuses are looked at', '')


def users_of(cx, *names):
    out = {}
    for k, f in cx.p.fn.items():
        if any(x.get('k') == 'call' and x.get('f') in names for x in walk(f['body'])):
            out[k] = f
    return out


def terms(F):
    for l in F.all():
        if l[0] in ('and', 'or'):
            continue
        for t, k in l[1]:
            yield t


def same_iter(a, b):
    return a == b


@rule('S12', 'iterated', 'an iteration which failed is not taken for one which reached the end')
def s12_iterated(cx):
    V, S = 'rocksdb::Iterator::Valid', 'rocksdb::Iterator::status'
    fs = users_of(cx, V)
    cx.ob(len(fs) >= 10, 'program', 'iterations are looked at', '')
    for k, f in sorted(fs.items()):
        if f['file'].startswith(SKIPFILES):
            continue
        ended = 0
        for p in cx.paths(f, opaque=OPQ_ITER):
            if p.outcome != 'return':
                continue
            F = p.facts
            for t in {x for x in terms(F) if isinstance(x, tuple) and x[:2] == ('call', V)}:
                if not F.entails(eq(t, ZERO)):
                    continue
                ended += 1
                it = t[2]
                st = ('call', S, it)
                ok = F.entails(st_ok(st)) or inside(p.val, st)
                cx.ob(ok, f['name'], 'the end of an iteration was not a failure', f['file'], p)
                break
        cx.ob(True, f['name'], f'{ended} ends', f['file'])


OPQ_ITER = ('~WriteOperation::', '~Locator::', '~KeyDescriptor::', '~StagingArea::', '~quarkdb::StateMachine::(?!ensure)', '~ReverseLocator::', '~EscapedPrefixExtractor::', '~StringUtils::', '~quarkdb::RaftJournal::(?!Iterator)')


def _told(p, e):
    """a failure of e is told on: returned, part of an answer or of a message which is"""
    F = p.facts
    if inside(p.val, e.ret):
        return True
    i = p.index(e)
    for c in p.events[i + 1:]:
        if c.kind == 'call' and c.name and (inside(c.args, e.ret) or c.name.split('::')[-1] in ('err', 'fromStatus')):
            return True
        if c.kind == 'write' and inside(c.val, e.ret):
            return True
    return False


@rule('S12', 'meaning', "a failure is passed on or stops the process; only 'not found' means absent")
def s12_meaning(cx):
    fine = never_fails(cx)
    names = {f['name'] for f in cx.p.fn.values() if bare(f.get('ret')) == ST}
    sure = {f['name'] for k, f in cx.p.fn.items() if k in fine} - {f['name'] for k, f in cx.p.fn.items() if k not in fine and bare(f.get('ret')) == ST}
    keep = {f['name'] for f in cx.p.fn.values()} - {f['name'] for f in cx.p.fn.values() if any(bare(q['t']) == ST for q in f['params'])}
    n = 0
    for k, f in sorted(cx.p.fn.items()):
        if f['file'].startswith(SKIPFILES):
            continue
        called = {x['f'] for x in walk(f['body']) if status_call(x)} - {ST + '::OK'}
        called = {c for c in called if not c.startswith(ST + '::') and c not in sure}
        if not called:
            continue
        hide = tuple(sorted(c for c in names if c != f['name'])) + OPQ_ST
        try:
            paths = cx.paths(f, opaque=hide)
        except TooComplex:
            # the functions it calls are judged on their own; only those given a status matter
            paths = cx.paths(f, opaque=tuple(sorted(keep - {f['name']})))
        for p in paths:
            if p.outcome != 'return':
                continue
            F = p.facts
            for e in p.events:
                if e.kind != 'call' or e.name not in called or e.ret is None:
                    continue
                n += 1
                ok = F.entails(st_ok(e.ret)) or F.entails(st_missing(e.ret)) or _told(p, e)
                if not ok:
                    # one of the two, whichever
                    ok = not possible(F, tneg(st_ok(e.ret)), tneg(st_missing(e.ret)))
                ok = ok or _settled(cx, f, p, e)
                cx.ob(ok, f"{f['name']} {e.name}", 'a failure is not swallowed', e.where(), p)
    cx.ob(n > 100, 'program', 'statuses mean something', '')


# what a failure means where it is not passed on: (function, callee) -> the way out
MEANS = {
    (Q + 'RaftDirector::runForLeader', Q + 'RaftJournal::fetch'): 'quiet',
    (Q + 'RaftDispatcher::requestVote', Q + 'RaftJournal::fetch'): 'refused',
    (Q + 'RaftReplicaTracker::sendPayload', Q + 'RaftJournal::fetch'): 'no',
    (Q + 'ShardDirectory::takeSnapshot', Q + 'StateMachine::checkpoint'): 'no',
    (Q + 'ShardDirectory::takeSnapshot', Q + 'RaftJournal::checkpoint'): 'no',
    (Q + 'RecoveryDispatcher::dispatch', Q + 'RecoveryEditor::del'): 'invalid',
    # the destination has to be absent: a failure which is not absence is met again by the write to it
    (Q + 'RedisDispatcher::dispatchWrite', Q + 'StateMachine::lhget'): 'any',
    # the old value only shows up in the log
    (Q + 'StateMachine::configSet', Q + 'StateMachine::configGet'): 'any',
}


def _settled(cx, f, p, e):
    F = p.facts
    failed = F.refutes(st_ok(e.ret))
    # the first failure of several is the one told
    if any(x is not e and x.kind == 'call' and x.name == e.name and x.ret is not None and F.refutes(st_ok(x.ret)) and _told(p, x)
           for x in p.events):
        return True
    # the turn of a loop leaves it in a variable
    i = p.index(e)
    for x in p.events[i + 1:]:
        if x.kind == 'loop' and x.info == 'iterend' and any(b == e.ret for _, _, b in x.args or ()):
            return True
    # an earlier failure is being kept instead
    kept = [t[2] for t in subterms(tuple(F.all())) if isinstance(t, tuple) and t[:2] == ('call', ST + '::ok') and t[2] != e.ret]
    for G in F.with_(tneg(st_ok(e.ret))):
        if not any(G.refutes(st_ok(x)) for x in kept):
            break
    else:
        return True
    # asked again, and then it worked
    if any(x.kind == 'call' and x.name == e.name and x.ret is not None and x.args[1:2] == e.args[1:2] and F.entails(st_ok(x.ret))
           for x in p.events[i + 1:]):
        return True
    # callers of a helper extracted from the function share its way out
    how = MEANS.get((f['name'], e.name))
    if how is None:
        return False
    if how == 'any':
        return True
    if how == 'invalid':
        return F.entails(ne(('call', ST + '::IsInvalidArgument', e.ret), ZERO))
    if not failed:
        return False
    if how == 'quiet':
        return not any(x.kind == 'call' and x.name and x.name.startswith(Q + 'Raft') and not x.name.startswith(Q + 'RaftJournal')
                       for x in p.events[i + 1:])
    if how == 'no':
        return p.val is not None and F.entails(eq(p.val, ZERO))
    if how == 'refused':
        return any(isinstance(t, tuple) and t[:1] == ('e',) and t[1].split('::')[-1] in ('REFUSED', 'VETO') for t in subterms(p.val))
    return False


OPQ_ST = ('~WriteOperation::', '~Locator::', '~KeyDescriptor::', '~StagingArea::', '~ReverseLocator::', '~StringUtils::', '~quarkdb::StateMachine::', '~Formatter::', '~quarkdb::Connection::', '~ResponseBuilder::', '~LeaseInfo::', '~parseScan')
