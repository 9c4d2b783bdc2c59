"""U03: background threads"""
import re
from qdb.common import *
from qdb.rule import rule

Q = 'quarkdb::'
AT, TA = Q + 'AssistedThread::', Q + 'ThreadAssistant::'
ASSIST, JOINED, TH = AT + 'assistant', AT + 'joined', AT + 'th'
STOP, CBS, MTX, NOTE = TA + 'stopFlag', TA + 'terminationCallbacks', TA + 'mtx', TA + 'notifier'
OPQ = ('~AssistedThread::',)


def peeled(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'copy', 'addr', 'paren', 'un') and 'e' in n:
        n = n['e']
    return n


def on_this(n):
    """field of this that an expression reaches into"""
    n = peeled(n)
    while isinstance(n, dict):
        if n.get('k') == 'mem':
            b = peeled(n.get('b'))
            if isinstance(b, dict) and b.get('k') == 'this':
                return n['f']
            n = b
        elif n.get('k') in ('deref', 'un', 'index', 'idx') or 'e' in n:
            n = peeled(n.get('e') or n.get('b'))
        elif n.get('k') == 'call' and isinstance(n.get('o'), dict):
            n = peeled(n['o'])
        else:
            return None
    return None


def uses(cx, body, cls, seen=None):
    """members of cls that code reaches through `this`, directly or by calling methods of the class"""
    seen = set() if seen is None else seen
    out = set()
    for x in walk(body):
        if x.get('k') == 'mem' and isinstance(peeled(x.get('b')), dict) and peeled(x['b']).get('k') == 'this':
            out.add(x['f'])
        key = x.get('key')
        if key and key not in seen and key in cx.p.fn and cx.p.fn[key].get('cls') == cls:
            o = peeled(x.get('o'))
            if (isinstance(o, dict) and o.get('k') == 'this') or x.get('k') == 'fn':
                seen.add(key)
                out |= uses(cx, cx.p.fn[key]['body'], cls, seen)
    return out


def is_thread(t):
    return t in ('std::thread', 'quarkdb::AssistedThread') or re.match(r'std::(vector|list|deque)<(std::thread|quarkdb::AssistedThread)\b', t) is not None


def trivial(cx, t):
    t = t.replace('const ', '').strip()
    return t.endswith('&') or t.endswith('*') or t.startswith('std::atomic<') or t.startswith('std::chrono::') \
        or t in ('bool', 'int', 'long', 'unsigned long', 'unsigned int', 'double', 'char', 'unsigned char', 'short', 'long long', 'unsigned long long') or t in cx.p.enum if hasattr(cx.p, 'enum') else False


def bodies(f):
    yield f['body']
    for i in f.get('inits') or []:
        yield i['e']


def starts(cx):
    """[(class, function that starts it, thread function body, name, thread member or None)]"""
    out = []
    for f in cx.p.fn.values():
        cls = f.get('cls')
        if not cls or cls in (Q + 'AssistedThread', Q + 'ThreadAssistant', Q + 'XrdQuarkDB'):
            continue
        for part in bodies(f):
            for x in walk(part):
                if x.get('k') not in ('call', 'ctor', 'new'):
                    continue
                nm = x.get('f') or ''
                obj = x.get('o')
                t = (peeled(obj) or {}).get('t', '') if isinstance(obj, dict) else ''
                if not (nm in (AT + 'AssistedThread', AT + 'reset', 'std::thread::thread') or (nm.split('::')[-1] in ('emplace_back', 'push_back', 'emplace') and is_thread(t))):
                    continue
                for a in x.get('a') or []:
                    a = peeled(a)
                    if isinstance(a, dict) and a.get('k') == 'fn' and a.get('key') in cx.p.fn and cx.p.fn[a['key']].get('cls'):
                        g = cx.p.fn[a['key']]
                        out.append((g['cls'], f, g, x))
                        break
                    if isinstance(a, dict) and a.get('k') == 'lambda':
                        out.append((cls, f, {'body': a, 'name': f['name'] + '::<lambda>', 'key': None, 'cls': cls}, x))
                        break
    return out


def start_events(p):
    for i, e in enumerate(p.events):
        if e.kind == 'call' and e.args and (e.name in (AT + 'AssistedThread', AT + 'reset', 'std::thread::thread') or e.name.split('::')[-1] in ('emplace_back', 'push_back', 'emplace')):
            a = e.args[0]
            if isinstance(a, tuple) and a[:1] in (('fn',), ('lambda',), ('closure',)):
                yield i, e


@rule('U03', 'stop-signal', 'a stop request is never lost: whoever waits is woken, whoever waits later returns at once')
def u03_assist(cx):
    f = cx.fn(TA + 'requestTermination')
    s = f['name']
    n = 0
    first = eq(this(STOP), FALSE)
    for p in returns(cx.paths(f)):
        st = [e for e in p.writes(STOP)]
        if not p.facts.refutes(first):
            n += 1
            cx.ob(len(st) >= 1 and p.final(thisloc(STOP)) in (TRUE, C(1)), s, 'the first request raises the flag', None, p)
            cx.ob(all(held(e, MTX, 'w') for e in st), s, 'raises it under the lock of the waiters', None, p)
            wake = [e for e in p.calls('~notify_all')]
            cx.ob(bool(wake) and bool(st) and p.index(wake[-1]) > p.index(st[-1]), s, 'wakes every waiter after raising it', None, p)
            ran = [e for e in p.events if e.kind == 'call' and e.name.endswith('<indirect>')]
            cx.ob(bool(ran) or p.facts.entails(le(size(this(CBS)), ZERO)) or p.facts.entails(eq(size(this(CBS)), ZERO)), s, 'runs every registered callback', None, p)
            for e in ran:
                cx.ob(visits(p, e.loops, e.obj, lambda c: c == this(CBS)), s, 'runs every registered callback', e.where(), p)
    cx.ob(n > 0, s, 'the first request raises the flag')
    f = cx.fn(TA + 'registerCallback')
    s = f['name']
    for p in returns(cx.paths(f)):
        cx.ob(bool(p.writes(CBS)) and all(held(e, MTX, 'w') for e in p.writes(CBS)), s, 'remembers the callback, under the lock', None, p)
        ran = [e for e in p.events if e.kind == 'call' and e.name.endswith('<indirect>')]
        cx.ob(bool(ran) or not possible(p.facts, ne(this(STOP), FALSE)), s, 'a callback registered after the stop request runs at once', None, p)
        cx.ob(not ran or not possible(p.facts, eq(this(STOP), FALSE)), s, 'a callback does not run before a stop request', None, p)
    f = cx.fn(TA + 'terminationRequested')
    for p, r, F in bool_cases(returns(cx.paths(f))):
        cx.ob(not possible(F, ne(this(STOP), FALSE) if not r else eq(this(STOP), FALSE)), f['name'], 'reports the stop request', None, p)
    for nm in ('wait_for', 'wait_until'):
        fs = cx.p.fns(TA + nm)
        cx.need(fs or nm == 'wait_until', TA + nm)
        for f in fs:
            s = TA + nm
            waited = False
            for p in returns(cx.paths(f, reads=True)):
                ws = [e for e in p.calls('~wait') if e.name.startswith('std::condition_variable')] + p.calls('~sleep')
                cx.ob(all(e.name.startswith('std::condition_variable') and e.objloc is not None and last_field(e.objloc) == NOTE for e in ws), s, 'waits where a stop request is announced', None, p)
                rd = [e for e in p.events if e.kind == 'read' and last_field(e.loc) == STOP]
                for w in ws:
                    waited = True
                    cx.ob(not possible(p.facts, ne(this(STOP), FALSE)), s, 'never waits once a stop was requested', w.where(), p)
                    cx.ob(held(w, MTX, 'w') and all(held(r, MTX, 'w') for r in rd), s, 'looks for a stop request and starts waiting under one lock', w.where(), p)
                    cx.ob(not any(e.kind == 'rel' and any(p.index(r) < p.index(e) < p.index(w) for r in rd) for e in p.events), s, 'no stop request can slip in between looking and waiting', w.where(), p)
                    cx.ob(any(a == P(f, 0) for a in w.args), s, 'waits for the given time', w.where(), p)
                if not ws:
                    cx.ob(not possible(p.facts, eq(this(STOP), FALSE)), s, 'waits unless a stop was requested', None, p)
            cx.ob(waited, s, 'waits for the given time')


@rule('U03', 'join', 'joining a thread always asks it to stop first, and a running thread is always joined')
def u03_join(cx):
    running = eq(this(JOINED), FALSE)
    PU = dict(opaque=('~ThreadAssistant::',))
    for nm, dt in (('stop', 0), ('join', 0), ('blockUntilThreadJoins', 0), ('reset', 0), ('<dtor>', 1)):
        fs = [f for f in cx.p.methods(Q + 'AssistedThread') if (('<dtor>' in f['key']) if dt else f['name'] == AT + nm)]
        cx.need(fs, AT + nm)
        for f in fs:
            s = AT + nm
            for p in returns(cx.paths(f, **PU)):
                req = p.calls(TA + 'requestTermination')
                jn = p.calls('std::thread::join')
                if nm in ('stop', 'join', 'reset', '<dtor>'):
                    cx.ob(bool(req) or not possible(p.facts, running), s, 'asks a running thread to stop', None, p)
                if nm in ('join', 'reset', '<dtor>', 'blockUntilThreadJoins'):
                    cx.ob(bool(jn) or not possible(p.facts, running), s, 'waits for a running thread', None, p)
                    cx.ob(not jn or not possible(p.facts, ne(this(JOINED), FALSE)), s, 'never joins twice', None, p)
                    for e in jn:
                        cx.ob(nm == 'blockUntilThreadJoins' or any(p.index(r) < p.index(e) for r in req), s, 'asks it to stop before waiting', e.where(), p)
                if nm in ('join', 'blockUntilThreadJoins'):
                    cx.ob(p.final(thisloc(JOINED)) in (TRUE, C(1)) or not possible(p.facts, running), s, 'remembers that it was joined', None, p)
                if nm == 'blockUntilThreadJoins':
                    cx.ob(not req, s, 'lets the thread finish on its own', None, p)
                if nm == 'reset':
                    cx.ob(p.final(thisloc(JOINED)) in (FALSE, ZERO), s, 'a new thread will have to be joined', None, p)
                    rs = p.calls(TA + 'reset')
                    th = [e for e in p.writes(TH) if e.val[:1] == ('ctor',) or p.index(e) > max([p.index(x) for x in jn] + [-1])]
                    cx.ob(bool(rs) and bool(th) and p.index(rs[-1]) < p.index(th[-1]) and all(p.index(j) < p.index(rs[0]) for j in jn), s,
                          'clears the old stop request after the old thread ended and before the new one starts', None, p)
    f = cx.fn(TA + 'reset')
    for p in returns(cx.paths(f)):
        cx.ob(p.final(thisloc(STOP)) in (FALSE, ZERO), f['name'], 'clears the stop request', None, p)
    cts = [f for f in cx.p.fn.values() if f.get('cls') == Q + 'AssistedThread' and '<ctor>' in f['key']]
    cx.need(len(cts) >= 3, AT + 'AssistedThread')
    for f in cts:
        s = AT + 'AssistedThread'
        par = f['params']
        for p in returns(cx.paths(f, opaque=())):
            j = p.final(thisloc(JOINED))
            if f['key'].endswith('::<ctor>(quarkdb::AssistedThread&&)'):
                src = ('var', par[0]['id'], 0)
                cx.ob(j == Engine.project(('init', src), JOINED) or j == ('.', ('d', src), JOINED) or j == ('.', P(f, 0), JOINED), s, 'a moved thread keeps whether it has to be joined', None, p)
                for m in (ASSIST, TH):
                    v = p.final(thisloc(m))
                    cx.ob(v == Engine.project(('init', src), m) or v in (('.', ('d', src), m), ('.', P(f, 0), m)), s, 'moving a thread moves all of it', None, p)
                cx.ob(any(last_field(e.loc) == JOINED and e.val in (TRUE, C(1)) and e.loc != thisloc(JOINED) for e in p.events if e.kind == 'write'), s, 'the moved-from thread is never joined', None, p)
                continue
            made = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == STOP]
            if par:
                cx.ob(j in (FALSE, ZERO), s, 'a started thread has to be joined', None, p)
                cx.ob(bool(made) and made[-1].val in (FALSE, ZERO), s, 'a started thread has not been asked to stop', None, p)
            else:
                cx.ob(j in (TRUE, C(1)), s, 'nothing to join before a thread is started', None, p)


    for nm in ('registerCallback', 'dropCallbacks'):
        f = cx.fn(AT + nm)
        for p in returns(cx.paths(f, **PU)):
            cx.ob(bool(p.calls(TA + nm)), f['name'], 'reaches the thread', None, p)


@rule('U03', 'woken', 'a thread that waits for the journal is woken until it has noticed the stop request')
def u03_woken(cx):
    WT = Q + 'RaftWriteTracker::'
    ACT, SHUT = WT + 'commitApplierActive', WT + 'shutdown'
    f = cx.fn(WT + '~RaftWriteTracker')
    s = f['name']
    n = 0
    for p in cx.paths(f, volatile=(ACT,), opaque=('~RaftJournal::', WT + 'flushQueues')):
        jn = p.calls('std::thread::join')
        if p.outcome != 'loop':
            cx.ob(bool(jn), s, 'waits for the thread', None, p)
        raised = [p.index(e) for e in p.writes(SHUT) if not is_zero(e.val)]
        for e in p.events:
            if e.kind == 'loop' and e.info in ('begin', 'zero'):
                cx.ob(bool(raised) and raised[0] < p.index(e), s, 'raises the stop request before waiting for the thread to notice', e.where(), p)
        for l in {e.val[1] for e in p.events if e.kind == 'loop' and e.info == 'iterend'}:
            n += 1
            cx.ob(any(l in e.loops for e in p.calls('~RaftJournal::notifyWaitingThreads')), s, 'wakes the thread again in every round', None, p)
        for e in jn:
            hv = {t for l in p.facts.all() for c in l[1] for t in subterms(c[0]) if t[:1] == ('hav',) and last_field(t[2]) == ACT}
            cx.ob(any(not possible(e.facts, ne(t, ZERO)) for t in hv) or not possible(e.facts, ne(this(ACT), ZERO)), s, 'keeps waking the thread until it is done', e.where(), p)
    cx.ob(n > 0, s, 'wakes the thread again in every round')
    f = cx.fn(WT + 'applyCommits')
    for p in returns(cx.paths(f, volatile=(SHUT,), opaque=('~RaftJournal::', '~RaftWriteTracker::'))):
        w = [e for e in p.writes(ACT)]
        cx.ob(bool(w) and is_zero(w[-1].val), f['name'], 'tells when it is done', None, p)
        cx.ob(not any(p.index(e) > p.index(w[-1]) for e in p.events if e.kind == 'call' and 'waitFor' in (e.name or '')) if w else False, f['name'], 'does not wait once it said it is done', None, p)
    turns_ = 0
    for p in cx.paths(f, volatile=(SHUT,), opaque=('~RaftJournal::', '~RaftWriteTracker::')):
        for e in p.events:
            if e.kind == 'loop' and e.info == 'iterend':
                turns_ += 1
                l = e.val[1]
                hv = {t for x in p.facts.all() for c in x[1] for t in subterms(c[0]) if t[:1] == ('hav',) and last_field(t[2]) == SHUT}
                cx.ob(any(not possible(e.facts, ne(t, ZERO)) for t in hv), f['name'], 'goes on waiting only after finding no stop request in this round', e.where(), p)
    cx.ob(turns_ > 0, f['name'], 'waits between its rounds')


# how the owner wakes a thread that waits elsewhere than on its assistant: (what must happen before the join)
def w_publisher(p, upto):
    return any(e.name.endswith('::setBlockingMode') and e.args and is_zero(e.args[0]) and p.index(e) < upto for e in p.events if e.kind == 'call')


def w_asio(p, upto):
    return any(e.name == 'asio::io_context::stop' and p.index(e) < upto for e in p.events if e.kind == 'call')


def w_flag(field):
    def go(p, upto):
        return any(e.kind == 'write' and last_field(e.loc) == field and not is_zero(e.val) and p.index(e) < upto for e in p.events)
    return go


def w_director(p, upto):
    return any(e.name == Q + 'RaftState::shutdown' and p.index(e) < upto for e in p.events if e.kind == 'call')


WAKE = {Q + 'Publisher::asyncPublisher': w_publisher, Q + 'AsioPoller::workerThread': w_asio, Q + 'RaftDirector::main': w_director,
        Q + 'RaftWriteTracker::applyCommits': w_flag(Q + 'RaftWriteTracker::shutdown'), Q + 'RaftReplicaTracker::main': w_flag(Q + 'RaftReplicaTracker::shutdown')}


@rule('U03', 'start-late', 'a thread starts only after everything it uses is initialised')
def u03_start(cx):
    ss = starts(cx)
    cx.need(len(ss) >= 10, 'thread starts')
    done = set()
    for cls, f, g, x in ss:
        if f['key'] in done or f.get('cls') != cls:
            continue
        done.add(f['key'])
        use = {}
        for c2, f2, g2, x2 in ss:
            if f2['key'] == f['key']:
                use[g2['key']] = uses(cx, g2['body'], cls)
        s = f['name']
        n = 0
        r = cx.p.rec.get(cls)
        types = {d['n']: d['t'] for d in r['fields']}
        ctor = '<ctor>' in f['key']
        for p in cx.paths(f, opaque=OPQ + ('~RaftReplicaTracker::', '~RaftTalker::', '~RaftState::', '~RaftJournal::', '~ShardDirectory::', '~RaftTrimmingBlock::', '~RaftCommitTracker::getHandler', '~RaftConfig::')):
            for i, e in start_events(p):
                key = e.args[0][1] if e.args[0][0] == 'fn' else None
                us = use.get(key) or set().union(*use.values())
                n += 1
                owner = thread_member(e, p, i, types)
                if owner is None and not ctor:
                    continue        # a thread of this very call: it works along with the function that started it
                for w in p.events[i + 1:]:
                    if w.kind != 'write':
                        continue
                    fl = first_field(w.loc)
                    if fl is None or fl not in us or fl == owner or is_thread(types.get(fl, '')):
                        continue
                    cx.ob(False, s, '%s is set after the thread that uses it was started' % fl.split('::')[-1], w.where(), p)
                cx.ob(True, s, 'nothing the thread uses is set after it started')
        cx.ob(n > 0, s, 'starts its thread')


def first_field(loc):
    """member of this that a location lies in"""
    fs = []
    while isinstance(loc, tuple) and loc:
        if loc[0] == 'f':
            fs.append(loc[2])
            loc = loc[1]
        elif loc[0] == 'ix':
            loc = loc[1]
        elif loc == ('d', ('this',)):
            return fs[-1] if fs else None
        else:
            return None
    return None


def thread_member(e, p, i, types):
    """the member of this that the started thread lives in"""
    if e.objloc is not None and first_field(e.objloc) is not None and is_thread(types.get(first_field(e.objloc), '')):
        return first_field(e.objloc)
    for w in p.events[i + 1:i + 6]:
        if w.kind == 'write' and first_field(w.loc) and is_thread(types.get(first_field(w.loc), '')):
            return first_field(w.loc)
    return None


@rule('U03', 'stop-first', 'a thread is woken, stopped and waited for before anything it uses is destroyed')
def u03_dtor(cx):
    ss = starts(cx)
    by = {}
    for cls, f, g, x in ss:
        by.setdefault(cls, []).append((f, g))
    n = 0
    for cls, l in sorted(by.items()):
        r = cx.p.rec.get(cls)
        cx.need(r, cls)
        order = [d['n'] for d in r['fields']]
        types = {d['n']: d['t'] for d in r['fields']}
        # which member holds which thread function
        own = {}
        for f, g in l:
            for p in cx.paths(f, opaque=OPQ + ('~RaftReplicaTracker::', '~RaftTalker::', '~RaftState::', '~RaftJournal::', '~ShardDirectory::', '~RaftTrimmingBlock::', '~RaftCommitTracker::getHandler', '~RaftConfig::')):
                for i, e in start_events(p):
                    m = thread_member(e, p, i, types)
                    if m and (e.args[0][0] != 'fn' or e.args[0][1] == g['key']):
                        own[m] = g
        for m in order:
            if is_thread(types[m]):
                n += 1
                g = own.get(m)
                if g is None:
                    continue
                us = uses(cx, g['body'], cls)
                check_end(cx, cls, m, g, us, order, types)
    cx.need(n >= 10, 'thread members')


def check_end(cx, cls, m, g, us, order, types):
    short = cls.split('::')[-1]
    s = '%s::~%s' % (cls, short)
    dt = [f for f in cx.p.methods(cls) if '<dtor>' in f['key']]
    later = [d for d in order[order.index(m) + 1:] if d in us and not trivial(cx, types[d]) and not is_thread(types[d])]
    assisted = 'AssistedThread' in types[m]
    wake = WAKE.get(g['name'])
    if not dt:
        cx.ob(assisted, s, '%s has to be joined' % m.split('::')[-1], cx.p.rec[cls]['file'])
        cx.ob(not later, s, '%s is destroyed while %s may still use it' % (', '.join(x.split('::')[-1] for x in later), m.split('::')[-1]), cx.p.rec[cls]['file'])
        cx.ob(wake is None, s, '%s has to be woken before it is joined' % m.split('::')[-1], cx.p.rec[cls]['file'])
        return
    ended = 0
    for p in cx.paths(dt[0], opaque=OPQ + ('~RaftState::', '~RaftJournal::', '~RaftWriteTracker::', '~Publisher::', '~RaftCommitTracker::')):
        if p.outcome == 'loop':
            continue
        ended += 1
        js = [e for e in p.events if e.kind == 'call' and e.name in (AT + 'join', 'std::thread::join', AT + 'blockUntilThreadJoins') and e.objloc is not None and first_field(e.objloc) == m]
        js = [e for e in js if e.name != AT + 'blockUntilThreadJoins' or any(x.kind == 'call' and x.name == AT + 'stop' and first_field(x.objloc) == m and p.index(x) < p.index(e) for x in p.events if x.objloc is not None)]
        vec = types[m].startswith('std::vector') or types[m].startswith('std::list')
        if js and vec and later:
            cx.ob(any(visits(p, e.loops, e.obj, lambda c: c == this(m)) for e in js), s, 'joins every thread', js[0].where(), p)
        if js:
            i = p.index(js[0])
        elif vec and p.facts.entails(le(size(this(m)), ZERO)):
            i = len(p.events)
        elif not assisted:
            jb = {t for e in p.events if e.kind == 'branch' or e.kind == 'call' for t in ([e.ret] if e.kind == 'call' and e.name == 'std::thread::joinable' else [])} | \
                 {t for l in p.facts.all() for c in l[1] for t in subterms(c[0]) if t[:1] in (('call',), ('ret',)) and 'joinable' in repr(t[:3])}
            cx.ob(any(t is not None and p.facts.entails(eq(t, ZERO)) for t in jb), s, '%s has to be joined' % m.split('::')[-1], None, p)
            i = len(p.events)
        else:
            i = len(p.events)
            cx.ob(not later, s, '%s is destroyed while %s may still use it' % (', '.join(x.split('::')[-1] for x in later), m.split('::')[-1]), None, p)
        if wake is not None and js:
            cx.ob(wake(p, i), s, '%s is woken before it is waited for' % m.split('::')[-1], None, p)
        elif wake is not None and assisted and not vec:
            cx.ob(False, s, '%s is woken before it is waited for' % m.split('::')[-1], None, p)
        for w in p.events[:i]:
            if w.kind in ('write', 'delete') and w.loc is not None:
                fl = first_field(w.loc)
                if fl in us and not types.get(fl, '').startswith('std::atomic<') and not is_thread(types.get(fl, '')) and not signal(w):
                    cx.ob(False, s, '%s is changed while %s may still use it' % (fl.split('::')[-1], m.split('::')[-1]), w.where(), p)
    cx.ob(ended > 0, s, 'ends')


def signal(w):
    """a change that only tells the thread to stop"""
    v = w.val
    return isinstance(v, tuple) and v[:1] == ('mut',) and v[1].split('::')[-1] in ('stop', 'setBlockingMode', 'shutdown', 'close')


@rule('U03', 'listens', 'a background thread looks for its stop signal in every round in which it waits')
def u03_listen(cx):
    seen = set()
    for cls, f, g, x in starts(cx):
        if g['key'] is None or g['key'] in seen:
            continue
        seen.add(g['key'])
        s = g['name']
        for key in closure(cx, g, cls):
            h = cx.p.fn[key]
            for c in walk(h['body']):
                nm = c.get('f') or ''
                if c.get('k') == 'call' and (nm.startswith('std::this_thread::sleep') or nm in ('sleep', 'usleep', 'nanosleep')):
                    cx.ob(False, s, 'sleeps without listening for its stop signal', '%s:%s' % (h['file'], c.get('l')))
                if c.get('k') == 'call' and nm == 'std::condition_variable::wait' and h.get('cls') == cls:
                    cx.ob(False, s, 'waits without bound on a signal that stopping does not give', '%s:%s' % (h['file'], c.get('l')))
        cx.ob(True, s, 'no deaf waits')
    WAITS = ('~ThreadAssistant::wait', '~RaftState::wait', '~RaftJournal::waitFor')
    for nm in ('FsyncThread::main', 'RequestCounter::mainThread', 'ConsistencyScanner::main', 'ConsistencyScanner::nextPass', 'ParanoidManifestChecker::main', 'RaftTrimmer::main',
               'Publisher::asyncPublisher', 'RaftCommitTracker::runAutoCommit', 'RaftReplicaTracker::sendHeartbeats', 'RaftReplicaTracker::monitorAckReception'):
        f = cx.fn(Q + nm)
        s = f['name']
        turns_ = 0
        TR = TA + 'terminationRequested'
        for p in cx.paths(f, opaque=('~ThreadAssistant::', '~RaftJournal::', '~StateMachine::', '~RaftState::', '~RaftConfig::', '~RaftTalker::', '~RaftLastContact::', '~RaftTrimmer::canTrimUntil',
                                     '~RaftMatchIndexTracker::', '~RaftTrimmingBlock::', '~RaftReplicaTracker::', '~Publisher::publish', '~Statistics::', '~StatAggregator::', '~HistoricalStatistics::',
                                     '~RequestCounter::', '~ParanoidManifestChecker::checkDB', '~ConsistencyScanner::', '~VersionedHash')):
            loops = {}
            for e in p.events:
                if e.kind == 'loop' and e.info == 'begin':
                    loops[e.val[1]] = p.index(e)
            for l, b in loops.items():
                ends = [p.index(e) for e in p.events if e.kind == 'loop' and e.val[1] == l and e.info in ('iterend', 'exit', 'break')]
                end = min(ends) if ends else len(p.events)
                if not any(e.kind == 'loop' and e.val[1] == l and e.info == 'iterend' for e in p.events):
                    continue
                body = p.events[b:end]
                waits = [e for e in body if e.kind == 'call' and re.search(r'(ThreadAssistant::wait|RaftState::wait|waitFor|getItemBlockOrNull|condition_variable::wait|retrieve_|future.*::wait)', e.name or '')]
                if not waits:
                    continue
                turns_ += 1
                asked = [e for e in body if e.kind == 'call' and e.name == TR]
                deaf = [e for e in asked if e.ret is not None and possible(p.facts, ne(e.ret, ZERO))]
                cx.ob(bool(asked) and not deaf, s, 'goes on waiting only after finding no stop request in this round', waits[0].where(), p)
        if nm != 'ConsistencyScanner::main':
            cx.ob(turns_ > 0, s, 'waits between its rounds')


def closure(cx, g, cls, seen=None):
    seen = [] if seen is None else seen
    if g['key'] in seen:
        return seen
    seen.append(g['key'])
    for x in walk(g['body']):
        k = x.get('key')
        if k in cx.p.fn and cx.p.fn[k].get('cls') == cls:
            closure(cx, cx.p.fn[k], cls, seen)
    return seen


@rule('U03', 'owners', 'what owns several components destroys them before the ones they use')
def u03_owners(cx):
    RG = Q + 'RaftGroup::'
    r = cx.p.rec.get(Q + 'RaftGroup')
    cx.need(r, RG)
    owned = [d['n'] for d in r['fields'] if d['t'].endswith('*')]
    # who needs whom: the components named while creating one
    getter, made = {}, {}
    for f in cx.p.methods(Q + 'RaftGroup'):
        if '<' in f['key'].split('::')[-1].split('(')[0] or f['name'] == RG + 'spindown':
            continue
        for p in returns(cx.paths(f, opaque=('~quarkdb::',))):
            for w in p.events:
                if w.kind == 'write' and last_field(w.loc) in owned and w.loc == thisloc(last_field(w.loc)) and not nilv(w.val):
                    m = last_field(w.loc)
                    getter[f['name']] = m
                    made.setdefault(m, set())
                    for b in p.events[:p.index(w)]:
                        if b.kind == 'call' and b.name.split('::')[-1] == b.name.split('::')[-2:][0]:
                            for c in p.events:
                                if c.kind == 'call' and c.name.startswith(RG) and c.ret is not None and any(a in (c.ret, ('init', ('d', c.ret))) for a in b.args):
                                    made[m].add(c.name)
    cx.need(len(getter) >= 8, 'RaftGroup getters')
    need = {m: {getter[c] for c in cs if c in getter and getter[c] != m} for m, cs in made.items()}
    f = cx.fn(RG + 'spindown')
    s = f['name']
    for p in returns(cx.paths(f, opaque=('~quarkdb::',))):
        pos = {}
        for e in p.events:
            if e.kind == 'delete':
                for m in owned:
                    if e.val == this(m) or (e.args and e.args[0] == this(m)) or getattr(e, 'obj', None) == this(m):
                        cx.ob(m not in pos, s, 'destroys each component once', e.where(), p)
                        pos[m] = p.index(e)
        for m in made:
            present = ne(this(m), ('null',))
            cx.ob(m in pos or not possible(p.facts, ne(this(m), ZERO)), s, 'destroys %s' % m.split('::')[-1], None, p)
            cx.ob(m not in pos or nilv(p.final(thisloc(m))), s, 'forgets %s once destroyed' % m.split('::')[-1], None, p)
            for d in need[m]:
                if m in pos and d in pos:
                    cx.ob(pos[m] < pos[d], s, 'destroys %s before %s, which it uses' % (m.split('::')[-1], d.split('::')[-1]), None, p)
    dt = [f for f in cx.p.methods(Q + 'RaftGroup') if '<dtor>' in f['key']]
    cx.need(dt, '~RaftGroup')
    for p in returns(cx.paths(dt[0], opaque=(RG + 'spindown',))):
        cx.ob(bool(p.calls(RG + 'spindown')), RG + '~RaftGroup', 'destroys its components', None, p)
    # threads that use a database end before it is closed
    for cls, members, db in ((Q + 'StateMachine', ('manifestChecker', 'consistencyScanner'), 'db'), (Q + 'RaftJournal', ('fsyncThread',), 'db')):
        dt = [f for f in cx.p.methods(cls) if '<dtor>' in f['key']]
        cx.need(dt, cls)
        order = [d['n'] for d in cx.p.rec[cls]['fields']]
        s = dt[0]['name']
        for p in returns(cx.paths(dt[0], opaque=('~FsyncThread::', '~ConsistencyScanner::', '~ParanoidManifestChecker::'))):
            D = cls + '::' + db
            closing = [p.index(e) for e in p.events if (e.kind == 'call' and e.objloc is not None and e.objloc == thisloc(D) and e.name.split('::')[-1] == 'reset')
                       or (e.kind == 'delete' and (e.val == this(D) or (e.args and e.args[0] == this(D))))]
            for m in members:
                M = cls + '::' + m
                cx.need(M in order, M)
                gone = [p.index(e) for e in p.events if e.kind == 'call' and e.objloc is not None and e.objloc == thisloc(M) and e.name.split('::')[-1] == 'reset' and (not e.args or nilv(e.args[0]))] + \
                       [p.index(e) for e in p.events if e.kind == 'write' and e.loc == thisloc(M) and nilv(e.val)]
                ok = bool(gone) and all(gone[0] < c for c in closing) or (not gone and not closing and order.index(M) > order.index(D))
                cx.ob(ok, s, '%s ends before the database is closed' % m, None, p)
    r = cx.p.rec.get(Q + 'QuarkDBNode')
    cx.need(r, 'QuarkDBNode')
    order = [d['n'].split('::')[-1] for d in r['fields']]
    cx.need('shard' in order and 'shardDirectoryOwnership' in order, 'QuarkDBNode members')
    dts = [f for f in cx.p.methods(Q + 'QuarkDBNode') if '<dtor>' in f['key']]
    touched = any(x.get('k') == 'mem' and x['f'].split('::')[-1] in ('shard', 'shardDirectoryOwnership') for d in dts for x in walk(d['body']))
    if touched:
        for p in returns(cx.paths(dts[0], opaque=('~quarkdb::',))):
            dir_ = [p.index(e) for e in p.events if e.kind == 'call' and e.objloc == thisloc(Q + 'QuarkDBNode::shardDirectoryOwnership') and e.name.split('::')[-1] == 'reset']
            sh = [p.index(e) for e in p.events if e.kind == 'call' and e.objloc == thisloc(Q + 'QuarkDBNode::shard') and e.name.split('::')[-1] == 'reset']
            cx.ob((not dir_ and order.index('shard') > order.index('shardDirectoryOwnership')) or (bool(sh) and bool(dir_) and sh[0] < dir_[0]) or (bool(sh) and not dir_), Q + 'QuarkDBNode::~QuarkDBNode', 'the shard ends before its directory', None, p)
    else:
        cx.ob(order.index('shard') > order.index('shardDirectoryOwnership'), Q + 'QuarkDBNode::~QuarkDBNode', 'the shard ends before its directory', r['file'])


def nilv(v):
    return is_zero(v) or v == ('null',)
