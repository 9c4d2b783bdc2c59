"""Health of a node: C16."""
from qdb.common import *

Q = 'quarkdb::'
HI = Q + 'HealthIndicator::'
NH = Q + 'NodeHealth::'
LEVEL = ('kGreen', 'kYellow', 'kRed')
ST = [('e', Q + 'HealthStatus::' + x) for x in LEVEL]
WORST = Q + 'chooseWorstHealth'
ASTEXT = Q + 'healthStatusAsString'
GI = 1024 ** 3


def plain(v):
    """an aggregate of one member initialised from a whole object of the same type is that object"""
    while v and v[:1] == ('agg',) and len(v[2]) == 1 and v[2][0][1][:1] == ('struct',) and v[2][0][1][1] == ('obj', v[1]):
        v = v[2][0][1]
    return v


def part(v, field):
    v = plain(v)
    if v[:1] in (('struct',), ('agg',)):
        for k, x in v[2]:
            if k == field:
                return x
        return None
    return Engine.project(v, field)


def indicator(x):
    """(status, description) of what was put into a vector of indicators: arguments or an object"""
    if len(x) == 3:
        return x[0], x[1]
    if len(x) == 1:
        return part(x[0], HI + 'status'), part(x[0], HI + 'description')
    return None, None


def rows(p, v):
    """what a vector contains, in order: ('row', arguments) | ('all', vector) | ('rep', loop, facts, rows)"""
    if v[:1] == ('mut',):
        n = v[1].split('::')[-1]
        if n in ('push_back', 'emplace_back'):
            return rows(p, v[2]) + [('row', v[3])]
        if n == 'insert' and len(v[3]) == 3 and subterm_of(v[3][0], ('call', 'end', v[2])):
            b, e = v[3][1], v[3][2]
            if is_call(b, 'begin') and is_call(e, 'end') and b[2] == e[2]:
                return rows(p, v[2]) + (rows(p, b[2]) or [])
        if n in ('reserve', 'shrink_to_fit'):
            return rows(p, v[2])
    f = folds(p, v)
    if f and f[2] is not None:
        ent, cur, end, lid, ef = f
        body = rows(p, end)
        if body[:1] == [('all', cur)]:
            return rows(p, ent) + [('rep', lid, ef, body[1:])]
    if v[:1] == ('ctor',):
        if not [a for a in v[2] if a != ('ctor', 'std::allocator', ())]:
            return []
        if v[2][0][:1] == ('list',):
            return [('row', (x,)) for x in v[2][0][1]]
        if len(v[2]) == 1:
            return rows(p, v[2][0])
    return [('all', v)]


def subterm_of(v, x):
    return any(t == x for t in subterms(v))


def values(F, v):
    """the health statuses v may have"""
    return [s for s in ST if possible(F, eq(v, s))]


@rule('C16', 'worst', 'of two statuses the worse one, of many the worst')
def c16_worst(cx):
    n = 0
    for f in cx.p.fns(WORST):
        s = f['name']
        if len(f['params']) == 2:
            for p in cx.paths(f):
                if p.outcome != 'return':
                    continue
                for i, a in enumerate(ST):
                    for j, b in enumerate(ST):
                        for F in p.facts.with_(eq(P(f, 0), a)):
                            for G in F.with_(eq(P(f, 1), b)):
                                if not consistent(G):
                                    continue
                                n += 1
                                want = ST[max(i, j)]
                                cx.ob(G.entails(eq(p.val, want)), s, '%s and %s give the worse of them' % (LEVEL[i], LEVEL[j]), f['file'], p)
        else:
            vec = P(f, 0)
            cont = lambda c: c == vec
            for p in cx.paths(f):
                if p.outcome != 'return':
                    continue
                n += 1
                if p.val in ST:
                    cx.ob(p.val == ST[0] and (p.facts.entails(eq(size(vec), ZERO)) or p.facts.entails(le(size(vec), ZERO))) or p.val == ST[2] and any(
                        possible(p.facts, eq(x, ST[2])) and p.facts.entails(eq(x, ST[2])) for x in statuses(p, vec)), s, 'no indicator: green; red once one is', f['file'], p)
                    continue
                fo = folds(p, p.val)
                cx.ob(fo is not None and fo[2] is not None, s, 'runs over the indicators', f['file'], p)
                if not fo or fo[2] is None:
                    continue
                ent, cur, end, lid, ef = fo
                cx.ob(ent == ST[0], s, 'starts from green', f['file'], p)
                xs = [x for x in statuses(p, vec) if visits(p, [lid], x, cont)] or [x for x in statuses(p, vec) if visits(p, [lid], x, cont, False)]
                if not xs:
                    # an iteration which did not look at its element: only allowed when it cannot get worse
                    cx.ob(ef.entails(eq(cur, ST[2])) and end == cur, s, 'every indicator counts', f['file'], p)
                    continue
                el = xs[0]
                cx.ob(visits(p, [lid], el, cont), s, 'up to the last', f['file'], p)
                for i, a in enumerate(ST):
                    for j, b in enumerate(ST):
                        for F in ef.with_(eq(cur, a)):
                            for G in F.with_(eq(el, b)):
                                if consistent(G):
                                    cx.ob(G.entails(eq(end, ST[max(i, j)])), s, 'each indicator counts as bad as it is', f['file'], p)
    cx.ob(n >= 5, 'the choice of the worst status', 'does all of it')


def statuses(p, vec):
    """terms which stand for the status of an indicator of vec on path p"""
    out = []
    srcs = []
    for e in p.events:
        if e.kind == 'loop':
            srcs += [x for a in (e.args or ()) for x in a[1:] if x]
        if e.facts is not None:
            srcs += [t for l in e.facts.all() if l[0] not in ('and', 'or') for t, k in l[1]]
    srcs += [t for l in p.facts.all() if l[0] not in ('and', 'or') for t, k in l[1]]
    for v in srcs:
        for t in subterms(v):
            if t[:1] == ('.',) and t[2] == HI + 'status' and subterm_of(t, vec) and t not in out:
                out.append(t)
            if t[:1] == ('init',) and t[1][:1] == ('f',) and t[1][2] == HI + 'status' and t not in out:
                out.append(t)
    # every loop over vec whose body does not mention the status still visits it: none added
    return out


@rule('C16', 'shown', 'a status is shown under its own name, an indicator with its own status')
def c16_shown(cx):
    enum_strings(cx, ASTEXT, Q + 'HealthStatus', {'kGreen': 'GREEN', 'kYellow': 'YELLOW', 'kRed': 'RED'}, 'health status')
    f = cx.fn(Q + 'stallConditionToString')
    vals = {'kNormal': 'normal', 'kDelayed': 'delayed', 'kStopped': 'stopped'}
    seen = {}
    for p in cx.paths(f):
        for k in vals:
            if p.outcome == 'return' and p.facts.entails(eq(P(f, 0), ('e', 'rocksdb::WriteStallCondition::' + k))):
                seen.setdefault(k, set()).add(p.val)
    for k, w in vals.items():
        cx.ob(seen.get(k) == {('s', w)}, f['name'], '%s is shown as %s' % (k, w), f['file'])
    for f in cx.p.fns(HI + 'HealthIndicator'):
        if len(f['params']) != 3:
            continue
        for p in cx.paths(f):
            for i, m in enumerate(('status', 'description', 'message')):
                cx.ob(p.final(thisloc(HI + m)) == P(f, i), f['name'], m + ' is kept', f['file'], p)
    for g, m in (('getStatus', 'status'), ('getDescription', 'description'), ('getMessage', 'message')):
        f = cx.fn(HI + g)
        for p in cx.paths(f):
            cx.ob(p.val == this(HI + m), f['name'], 'is the ' + m, f['file'], p)
    for g, m in (('getVersion', 'version'), ('getNode', 'node'), ('getIndicators', 'indicators')):
        f = cx.fn(NH + g)
        for p in cx.paths(f):
            cx.ob(p.val == this(NH + m), f['name'], 'is the ' + m, f['file'], p)
    for f in cx.p.fns(NH + 'NodeHealth'):
        k = len(f['params'])
        if k not in (2, 3) or not f.get('body'):
            continue
        for p in cx.paths(f):
            want = [('version', 0), ('indicators', k - 1)] + ([('node', 1)] if k == 3 else [])
            for m, i in want:
                cx.ob(p.final(thisloc(NH + m)) == P(f, i), f['name'], m + ' is kept', f['file'], p)
    f = cx.fn(HI + 'toString')
    for p in cx.paths(f, pure=(ASTEXT, '~rightPad')):
        if p.outcome == 'return':
            sh = shape(p, p.val)
            name = ('call', ASTEXT, this(HI + 'status'))
            cx.ob(sh and (sh[0] == name or is_call(sh[0], '~rightPad$') and name in sh[0]) and this(HI + 'description') in sh and this(HI + 'message') in sh,
                  f['name'], 'shows status, description and message', f['file'], p)
    f = cx.fn(Q + 'healthIndicatorsAsStrings')
    src = P(f, 0)
    n = 0
    for p in cx.paths(f, pure=(HI + 'toString',)):
        if p.outcome != 'return':
            continue
        r = rows(p, p.val)
        if r == []:
            cx.ob(p.facts.entails(le(size(src), ZERO)) or p.facts.entails(eq(size(src), ZERO)), f['name'], 'nothing for no indicator', f['file'], p)
            continue
        n += 1
        good = len(r) == 1 and r[0][0] == 'rep' and len(r[0][3]) == 1 and len(r[0][3][0][1]) == 1
        if good:
            x = r[0][3][0][1][0]
            good = is_call(x, HI + 'toString') and visits(p, [r[0][1]], x[2], lambda c: c == src)
        cx.ob(good, f['name'], 'one line per indicator, in order', f['file'], p)
    cx.ob(n, 'healthIndicatorsAsStrings has no loop', 'does all of it')
    f = cx.fn(Q + 'Formatter::nodeHealth')
    s = f['name']
    nh = P(f, 0)
    g = lambda m: (Engine.project(nh, NH + m), ('call', NH + 'get' + m.capitalize(), nh))
    n = 0
    for p in cx.paths(f, pure=(WORST, ASTEXT, Q + 'healthIndicatorsAsStrings', '~statusVector', HI + 'toString')):
        if p.outcome != 'return':
            continue
        n += 1
        ok_ = is_call(p.val, '~statusVector$')
        cx.ob(ok_, s, 'is sent as a list of lines', f['file'], p)
        if not ok_:
            continue
        r = rows(p, p.val[2])
        first = r[0][1][0] if r and r[0][0] == 'row' else None
        cx.ob(first is not None and shape(p, first) in [[('s', 'NODE-HEALTH '), ('call', ASTEXT, ('call', WORST, i))] for i in g('indicators')], s,
              'the first line is the worst of all indicators', f['file'], p)
        lines = [x[1] for x in r if x[0] == 'all']
        reps = [x for x in r if x[0] == 'rep' and len(x[3]) == 1 and len(x[3][0][1]) == 1 and is_call(x[3][0][1][0], HI + 'toString')
                and visits(p, [x[1]], x[3][0][1][0][2], lambda c: c in g('indicators'))]
        none = any(p.facts.entails(le(size(i), ZERO)) for i in g('indicators'))
        cx.ob(lines in [[('call', Q + 'healthIndicatorsAsStrings', i)] for i in g('indicators')] or not lines and (reps or none), s, 'each indicator is shown', f['file'], p)
        txt = [tuple(shape(p, x[1][0])) for x in r if x[0] == 'row']
        cx.ob(any((('s', 'VERSION '), v) in txt for v in g('version')), s, 'the version is shown', f['file'], p)
        node = any((('s', 'NODE '), v) in txt for v in g('node'))
        cx.ob(node or any(p.facts.entails(eq(size(v), ZERO)) for v in g('node')), s, 'the node is shown if there is one', f['file'], p)
    cx.ob(n, 'nodeHealth does not return', 'does all of it')


@rule('C16', 'space', 'free space is red, yellow or green by its bounds, red if unknown')
def c16_space(cx):
    f = cx.fn(Q + 'StateMachine::getFreeSpaceHealth')
    s = f['name']
    n = 0
    for p in cx.paths(f, pure=()):
        if p.outcome != 'return':
            continue
        sf = p.calls('statfs')
        sf = [e for e in sf if e.args]
        v = part(p.val, HI + 'status')
        cx.ob(len(sf) == 1 and part(p.val, HI + 'description') == ('s', 'SM-FREE-SPACE'), s, 'asks the file system once', f['file'], p)
        if len(sf) != 1 or v is None:
            continue
        n += 1
        cx.ob(sf[0].args[0] in (this(Q + 'StateMachine::filename'), ('cstr', this(Q + 'StateMachine::filename'))), s, 'of the state machine', f['file'], p)
        F = p.facts
        if F.entails(ne(sf[0].ret, ZERO)):
            cx.ob(v == ST[2], s, 'unknown is red', f['file'], p)
            continue
        cx.ob(F.entails(eq(sf[0].ret, ZERO)), s, 'a failed look is noticed', f['file'], p)
        o = ('out', sf[0].n, sf[0].name, 1, ())
        w = lambda m: Engine.project(o, 'statfs::' + m)
        free = [('op', '*', w('f_bavail'), w('f_bsize')), ('op', '*', w('f_bsize'), w('f_bavail'))]
        used = sub(w('f_blocks'), w('f_bfree'))
        q = None
        for e in [p.facts]:
            for l in e.all():
                if l[0] in ('and', 'or'):
                    continue
                for t, k in l[1]:
                    if t[:2] == ('op', '/'):
                        q = t
        fr = [x for x in free if any(x == t for l in F.all() if l[0] not in ('and', 'or') for t, k in l[1])]
        # 100 * used / (used + available): the share which is used
        share = q is not None and F.entails(eq(q[2], mul_(100, used))) and F.entails(eq(q[3], add(used, w('f_bavail'))))
        red = [le(x, C(GI)) for x in fr] + ([ge(q, C(97))] if share else [])
        yel = [le(x, C(5 * GI)) for x in fr] + ([ge(q, C(90))] if share else [])
        if v == ST[2]:
            cx.ob(any(F.entails(t) for t in red), s, 'red only if there is too little', f['file'], p)
        else:
            cx.ob(len(red) == 2 and not any(possible(F, t) for t in red), s, 'too little is red', f['file'], p)
            if v == ST[1]:
                cx.ob(any(F.entails(t) for t in yel), s, 'yellow only if there is little', f['file'], p)
            else:
                cx.ob(v == ST[0] and len(yel) == 2 and not any(possible(F, t) for t in yel), s, 'little is at least yellow', f['file'], p)
    cx.ob(n >= 4, 'getFreeSpaceHealth', 'does all of it')


def mul_(k, v):
    x = ZERO
    for _ in range(k):
        x = add(x, v)
    return x


@rule('C16', 'manifest', 'a stale manifest is noticed and makes the state machine red')
def c16_manifest(cx):
    PM = Q + 'ParanoidManifestChecker::'
    f = cx.fn(PM + 'compareMTimes')
    s = f['name']
    sec = lambda i: Engine.project(P(f, i), 'timespec::tv_sec')
    bad = [ne(sec(0), ZERO), ne(sec(1), ZERO), ge(sub(sec(1), sec(0)), C(3600))]
    n = 0
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        n += 1
        c = part(p.val, Q + 'Status::errcode')
        if c is not None and p.facts.entails(eq(c, ZERO)):
            cx.ob(not possible(p.facts, *bad), s, 'a manifest one hour older than the newest file is reported', f['file'], p)
        else:
            cx.ob(c is not None and p.facts.entails(ne(c, ZERO)) and not any(possible(p.facts, tneg(t)) for t in bad), s, 'and only then', f['file'], p)
    cx.ob(n >= 2, s, 'does all of it')
    f = cx.fn(PM + 'checkDB')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~DirectoryIterator::', PM + 'compareMTimes'), pure=('~StringUtils::(starts|ends)With', Q + 'operator<')):
        if p.outcome != 'return':
            continue
        cm = p.calls(PM + 'compareMTimes')
        cx.ob(len(cm) == 1 and p.val == cm[0].ret, s, 'compares what it found', f['file'], p)
        if len(cm) != 1:
            continue
        lids = {e.val[1] for e in p.events if e.kind == 'loop'}
        for i, word in enumerate(('MANIFEST', '.sst')):
            fo = folds(p, cm[0].args[i])
            if fo is None or fo[2] is None:
                continue
            ent, cur, end, lid, ef = fo
            cx.ob(part(ent, 'timespec::tv_sec') == ZERO, s, 'starts from the beginning of time', f['file'], p)
            n += 1
            if end == cur:
                # kept: no such file in this turn, or one which is not newer
                for e in [x for x in p.calls('~^l?stat$') if x.args and lid in x.loops]:
                    isit = [t for t in lits_of(ef) if t[1].endswith('startsWith' if i == 0 else 'endsWith') and ('s', word) in t]
                    mt = Engine.project(('out', e.n, e.name, 1, ()), 'stat::st_mtim')
                    cx.ob(not possible(ef, eq(e.ret, ZERO), gt(mt, cur), *[ne(t, ZERO) for t in isit]) if isit else ef.entails(ne(e.ret, ZERO)), s, 'a later %s counts' % word, f['file'], p)
                continue
            srcs = [e for e in p.events if e.kind == 'call' and e.name in ('stat', 'lstat') and e.args]
            cx.ob(any(shape(p, e.args[0])[:2] == [P(f, 0), ('s', '/')] for e in srcs), s, 'the files of that directory', f['file'], p)
            cx.ob(any(end == Engine.project(('out', e.n, e.name, 1, ()), 'stat::st_mtim') and ef.entails(eq(e.ret, ZERO)) for e in srcs), s, 'the time of a file which could be looked at', f['file'], p)
            lits = lits_of(ef)
            isit = [t for t in lits if t[1].endswith('startsWith' if i == 0 else 'endsWith') and ('s', word) in t]
            cx.ob(any(ef.entails(ne(t, ZERO)) for t in isit), s, 'the %s is looked for by its name' % word, f['file'], p)
            cx.ob(not possible(ef, lt(end, cur)), s, 'a time is replaced by a later one only', f['file'], p)
    cx.ob(n >= 2, 'checkDB finds no file', 'does all of it')
    f = cx.fn(Q + 'operator<', 2, lambda f: 'timespec' in f['params'][0]['t'])
    a = lambda i, m: Engine.project(P(f, i), 'timespec::tv_' + m)
    for p, b, F in bool_cases(cx.paths(f)):
        less = [[lt(a(0, 'sec'), a(1, 'sec'))], [eq(a(0, 'sec'), a(1, 'sec')), lt(a(0, 'nsec'), a(1, 'nsec'))]]
        if b:
            cx.ob(not possible(F, gt(a(0, 'sec'), a(1, 'sec'))) and not possible(F, eq(a(0, 'sec'), a(1, 'sec')), ge(a(0, 'nsec'), a(1, 'nsec'))), f['name'], 'true only if earlier', f['file'], p)
        else:
            cx.ob(not any(possible(F, *c) for c in less), f['name'], 'false only if not earlier', f['file'], p)
    f = cx.fn(PM + 'main')
    s = f['name']
    n = 0
    ls = PM + 'mLastStatus'
    for p in cx.paths(f, opaque=(PM + 'checkDB', '~Synchronized::set', '~ThreadAssistant::')):
        chk = p.calls(PM + 'checkDB')
        sets = [e for e in p.calls('~Synchronized::set$') if e.objloc and e.objloc == thisloc(ls)] or [e for e in p.calls('~Synchronized::set$')]
        for e in chk:
            n += 1
            cx.ob(e.args[0] == this(PM + 'mPath') and any(x.args[:1] == (e.ret,) for x in sets), s, 'what was found is kept', e.where(), p)
        cx.ob(len(sets) <= len(chk), s, 'only what was found', f['file'], p)
    cx.ob(n, 'main does not check', 'does all of it')
    f = cx.fn(PM + 'getLastStatus')
    for p in cx.paths(f):
        if p.outcome == 'return':
            cx.ob(subterm_of(p.val, this(ls)) or p.val[:1] == ('init',) and last_field(p.val[1]) == Q + 'Synchronized::contents' and first_of(p.val[1]) == ls, f['name'], 'is what was found last', f['file'], p)
    f = cx.fn(Q + 'StateMachine::getHealthIndicators')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~StateMachine::getFreeSpaceHealth', PM + 'getLastStatus')):
        if p.outcome != 'return':
            continue
        n += 1
        r = rows(p, p.val)
        fs = p.calls('~getFreeSpaceHealth$')
        st = p.calls(PM + 'getLastStatus')
        cx.ob(len(fs) == 1 and ('row', (fs[0].ret,)) in r, s, 'has the free space', f['file'], p)
        m = [indicator(x[1]) for x in r if x[0] == 'row']
        m = [v for v, d in m if d == ('s', 'SM-MANIFEST-TIMEDIFF')]
        cx.ob(len(m) == 1 and len(st) == 1, s, 'has the manifest', f['file'], p)
        if len(m) != 1 or len(st) != 1:
            continue
        c = Engine.project(st[0].ret, Q + 'Status::errcode')
        k = [t for t in (c, ('call', Q + 'Status::ok', st[0].ret))]
        fine = p.facts.entails(eq(k[0], ZERO)) or p.facts.entails(ne(k[1], ZERO))
        wrong = p.facts.entails(ne(k[0], ZERO)) or p.facts.entails(eq(k[1], ZERO))
        cx.ob(wrong and m[0] == ST[2] or fine and m[0] == ST[0], s, 'red exactly if the manifest is stale', f['file'], p)
    cx.ob(n, s, 'does all of it')


def lits_of(F):
    return [t for l in F.all() if l[0] not in ('and', 'or') for t, k in l[1] if t[:1] == ('call',)]


def first_of(loc):
    out = None
    while loc and loc[0] in ('f', 'd', 'ix'):
        if loc[0] == 'f':
            out = loc[2]
        loc = loc[1]
    return out


@rule('C16', 'node', 'the health of a node has all indicators of its parts')
def c16_node(cx):
    f = cx.fn(Q + 'RaftDispatcher::getHealth')
    s = f['name']
    RD = Q + 'RaftDispatcher::'
    n = rep = led = 0
    US = Q + 'ReplicaStatus::'
    for p in cx.paths(f, opaque=('~StateMachine::getHealthIndicators', '~RaftReplicator::getStatus$'), pure=('~RaftServer::', US + 'toString', US + 'upToDate', '~RaftState::getMyself', '~RaftJournal::getLogSize')):
        if p.outcome != 'return':
            continue
        n += 1
        sm = p.calls('~StateMachine::getHealthIndicators$')
        r = rows(p, part(p.val, NH + 'indicators') or p.val)
        cx.ob(len(sm) == 1 and ('all', sm[0].ret) in r, s, 'those of the state machine', f['file'], p)
        one = {}
        for x in r:
            if x[0] == 'row':
                v, d = indicator(x[1])
                one.setdefault(d, []).append(v)
        F = p.facts
        ld = [t for l in F.all() if l[0] not in ('and', 'or') for t, k in l[1]]
        emp_ = [t for t in ld if is_call(t, Q + 'RaftServer::empty') and any(x[:1] == ('init',) and x[1][:1] == ('f',) and x[1][2] == Q + 'RaftStateSnapshot::leader' for x in subterms(t))]
        q = one.get(('s', 'PART-OF-QUORUM'), [])
        cx.ob(len(q) == 1 and emp_, s, 'whether there is a leader', f['file'], p)
        if len(q) == 1 and emp_:
            none = F.entails(ne(emp_[0], ZERO))
            cx.ob(q[0] == ST[2] if none else q[0] == ST[0] and F.entails(eq(emp_[0], ZERO)), s, 'red without one', f['file'], p)
        lead = [t for t in ld if t[:1] == ('init',) and t[1][:1] == ('f',) and t[1][2] == Q + 'RaftStateSnapshot::status']
        cx.ob(lead, s, 'asks for its role', f['file'], p)
        if not lead or not F.entails(eq(lead[0], ('e', Q + 'RaftStatus::LEADER'))):
            cx.ob(lead and F.entails(ne(lead[0], ('e', Q + 'RaftStatus::LEADER'))), s, 'a leader reports on its replicas', f['file'], p)
            continue
        led += 1
        gs = p.calls('~RaftReplicator::getStatus$')
        cx.ob(len(gs) == 1, s, 'looks at the replicas once', f['file'], p)
        if len(gs) != 1:
            continue
        shaky = Engine.project(gs[0].ret, Q + 'ReplicationStatus::shakyQuorum')
        q = one.get(('s', 'QUORUM-STABILITY'), [])
        cx.ob(len(q) == 1 and (F.entails(ne(shaky, ZERO)) and q[0] == ST[1] or F.entails(eq(shaky, ZERO)) and q[0] == ST[0]), s, 'a shaky quorum is yellow', f['file'], p)
        reps = Engine.project(gs[0].ret, Q + 'ReplicationStatus::replicas')
        rr = [x for x in r if x[0] == 'rep']
        if not rr:
            cx.ob(any(e.kind == 'loop' and e.info == 'zero' for e in p.events), s, 'each replica is reported', f['file'], p)
            continue
        for x in rr:
            rep += 1
            good = len(x[3]) == 1
            v, d = indicator(x[3][0][1]) if good else (None, None)
            cx.ob(good and d == ('s', 'REPLICA'), s, 'each replica is reported once', f['file'], p)
            if not good:
                continue
            ef = x[2]
            lits = [t for l in ef.all() if l[0] not in ('and', 'or') for t, k in l[1]]
            on = [t for t in lits if t[:1] == ('init',) and t[1][:1] == ('f',) and t[1][2] == US + 'online' or t[:1] == ('.',) and t[2] == US + 'online']
            up = [t for t in lits if is_call(t, US + 'upToDate')]
            on = [t for t in on if visits(p, [x[1]], ('init', t[1][1]) if t[0] == 'init' else t[1], lambda c: c == reps)]
            up = [t for t in up if visits(p, [x[1]], t[2], lambda c: c == reps)]
            down = any(ef.entails(eq(t, ZERO)) for t in on + up)
            fine = any(ef.entails(ne(t, ZERO)) for t in on) and any(ef.entails(ne(t, ZERO)) for t in up)
            fine = fine or any(ef.entails(ne(t, ZERO)) for t in up)
            cx.ob(down and v in ST[1:] or fine and v == ST[0], s, 'a replica which is offline or lags is yellow', f['file'], p)
    cx.ob(n and led and rep, s, 'does all of it')
    f = cx.fn(US + 'upToDate')
    on, ls = this(US + 'online'), this(US + 'logSize')
    exact(cx, f['name'], cx.paths(f), [('online', ne(on, ZERO)), ('its journal is known', ge(ls, ZERO)), ('it is close', lt(sub(P(f, 0), ls), C(30000)))], f['file'])
    f = cx.fn(Q + 'RaftReplicator::getStatus')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~RaftReplicaTracker::getStatus', '~RaftLease::getShakyQuorumDeadline'), pure=()):
        if p.outcome != 'return':
            continue
        v = part(p.val, Q + 'ReplicationStatus::shakyQuorum')
        dl = p.calls('~getShakyQuorumDeadline$')
        now = p.calls('~steady_clock::now$')
        cx.ob(len(dl) == 1 and len(now) >= 1, s, 'looks at lease and clock', f['file'], p)
        if len(dl) != 1 or not now or v is None:
            continue
        n += 1
        late = lt(dl[0].ret, now[-1].ret)
        yes = [F for F in p.facts.with_(ne(v, ZERO)) if consistent(F)]
        no = [F for F in p.facts.with_(eq(v, ZERO)) if consistent(F)]
        cx.ob(all(not possible(F, tneg(late)) for F in yes) and all(not possible(F, late) for F in no), s, 'shaky exactly once the deadline is over', f['file'], p)
    cx.ob(n, s, 'does all of it')
    f = cx.fn(Q + 'RaftLease::getShakyQuorumDeadline')
    for p in cx.paths(f, opaque=('~getNthLease',)):
        if p.outcome == 'return':
            cs = p.calls('~getNthLease$')
            cx.ob(len(cs) == 1 and p.val == cs[0].ret and p.facts.entails(eq(cs[0].args[0], add(this(Q + 'RaftLease::quorumSize'), C(1)))), f['name'], 'one more than a quorum', f['file'], p)
    f = cx.fn(Q + 'StandaloneGroup::getHealth')
    for p in cx.paths(f, opaque=('~StateMachine::getHealthIndicators',)):
        if p.outcome == 'return':
            sm = p.calls('~StateMachine::getHealthIndicators$')
            cx.ob(len(sm) == 1 and rows(p, part(p.val, NH + 'indicators')) == [('all', sm[0].ret)], f['name'], 'those of the state machine', f['file'], p)
    f = cx.fn(Q + 'Shard::getHealth')
    s = f['name']
    n = [0, 0]
    for p in cx.paths(f, opaque=('~StandaloneGroup::', '~RaftGroup::', '~RaftDispatcher::', '~InFlightRegistration::', '~InFlightTracker::')):
        if p.outcome != 'return':
            continue
        lits = [t for l in p.facts.all() if l[0] not in ('and', 'or') for t, k in l[1]]
        ok_ = [t for t in lits if t[:1] in (('ret',), ('call',)) and 'InFlight' in repr(t)]
        below = p.calls('~(StandaloneGroup|RaftDispatcher)::getHealth$')
        if below:
            n[0] += 1
            cx.ob(len(below) == 1 and p.val == below[0].ret and any(p.facts.entails(ne(t, ZERO)) for t in ok_), s, 'is that of its group', f['file'], p)
        else:
            n[1] += 1
            ind = part(p.val, NH + 'indicators')
            r = rows(p, ind) if ind is not None else []
            cx.ob(any(x[0] == 'row' and indicator(x[1])[0] == ST[2] for x in r), s, 'without a group it is red', f['file'], p)
    cx.ob(n[0] >= 2 and n[1], s, 'does all of it')


@rule('C16', 'overall', 'the overall status is the worst of the indicators')
def c16_overall(cx):
    n = 0
    for f, c in callers(cx, WORST):
        n += 1
    for name, field in ((Q + 'RaftDispatcher::info', Q + 'RaftInfo::nodeHealthStatus'), (Q + 'QuarkDBNode::info', Q + 'QuarkDBInfo::nodeHealthStatus')):
        f = cx.fn(name)
        s = f['name']
        for p in cx.paths(f, opaque=('~::getHealth$', '~RaftReplicator::getStatus'), pure=(WORST,)):
            if p.outcome != 'return':
                continue
            h = p.calls('~::getHealth$')
            want = [('call', WORST, Engine.project(e.ret, NH + 'indicators')) for e in h] + [('call', WORST, ('call', NH + 'getIndicators', e.ret)) for e in h]
            v = part(p.val, field)
            cx.ob(v in want, s, 'is the worst of the indicators', f['file'], p)
    for name, field in ((Q + 'RaftInfo::toVector', Q + 'RaftInfo::nodeHealthStatus'), (Q + 'QuarkDBInfo::toVector', Q + 'QuarkDBInfo::nodeHealthStatus')):
        f = cx.fn(name)
        s = f['name']
        for p in cx.paths(f, pure=(ASTEXT, '~::toString$', '~ToString$', '~AsString$', '~serializeNodes')):
            if p.outcome == 'return':
                r = rows(p, p.val)
                txt = [shape(p, x[1][0]) for x in r if x[0] == 'row' and len(x[1]) == 1]
                cx.ob([('s', 'NODE-HEALTH '), ('call', ASTEXT, this(field))] in txt, s, 'and is shown', f['file'], p)
    cx.ob(n, 'nobody asks for the worst health', 'does all of it')
