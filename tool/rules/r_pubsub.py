"""C12: subscriptions, their registry and publishing"""
from qdb.common import *
from qdb.rule import rule
from rules.r_resp import nothing

Q = 'quarkdb::'
TR = Q + 'SubscriptionTracker::'
MM = Q + 'ThreadSafeMultiMap::'
KI, MI, FI = MM + 'KeyIterator::', MM + 'MatchIterator::', MM + 'FullIterator::'
PM = Q + 'SimplePatternMatcher::'
PI = PM + 'Iterator::'
PUB = Q + 'Publisher::'
PQ = Q + 'PendingQueue::'
SECOND, FIRST = 'std::pair::second', 'std::pair::first'


def op(v):
    return v[1].split('::')[-1] if v[:1] in (('call',), ('mut',)) and isinstance(v[1], str) else None


def kinds(F, cont, item):
    """what is known about item being in cont: True, False or None"""
    seen = set()
    for l in F.all():
        for t, _ in l[1]:
            for x in subterms(t):
                if isinstance(x, tuple) and len(x) > 3 and x[:1] == ('call',) and x[2] == cont and x[3] == item:
                    seen.add((op(x), x))
    for o, x in seen:
        if o == 'find':
            end = ('call', 'end', cont)
            if F.entails(eq(x, end)):
                return False
            if F.entails(ne(x, end)):
                return True
        if o in ('count', 'contains', 'erase'):
            if F.entails(eq(x, ZERO)) or F.entails(le(x, ZERO)):
                return False
            if F.entails(ne(x, ZERO)) or F.entails(ge(x, C(1))):
                return True
        if o in ('insert', 'emplace'):
            s = Engine.project(x, SECOND)
            if F.entails(ne(s, ZERO)):
                return False
            if F.entails(eq(s, ZERO)):
                return True
    return None


@rule('C12', 'tracker', 'channels and patterns are tracked separately and exactly')
def c12_tracker(cx):
    n = 0
    for what, fld in (('Channel', 'channels'), ('Pattern', 'patterns')):
        other = thisloc(TR + ('patterns' if fld == 'channels' else 'channels'))
        loc, cont = thisloc(TR + fld), this(TR + fld)
        for verb, was in (('add', False), ('remove', True), ('has', None)):
            f = cx.fn(TR + verb + what)
            s = f['name']
            item = P(f, 0)
            for p, r, F in bool_cases(cx.paths(f, reads=True)):
                n += 1
                for e in p.events:
                    cx.ob(not (e.kind in ('read', 'write') and e.loc == other or e.kind == 'call' and e.objloc == other), s, 'looks only at ' + fld, e.where(), p)
                v = p.final(loc)
                k = kinds(F, cont, item)
                if verb == 'has':
                    cx.ob(k is not None and k == bool(r) and v == cont, s, 'tells whether it is there', None, p)
                    continue
                done = v[:1] == ('mut',) and v[2] == cont and v[3] == (item,) and op(v) in (('insert', 'emplace') if verb == 'add' else ('erase',))
                cx.ob(k is not None and (k == was) == bool(r), s, 'tells whether that changed anything', None, p)
                cx.ob(done or v == cont and not r, s, 'keeps track of it', None, p)
    cx.ob(n >= 12, TR, 'subscriptions are tracked')


def setof(p, ev):
    """the key and map of a set operation in the registry"""
    l = ev.objloc
    if l is None:
        return None, None
    if l[0] == 'ix':
        return l[2], l[1]
    if l[0] == 'f' and l[2] == SECOND and l[1][0] == 'd' and op(l[1][1]) == 'find':
        x = l[1][1]
        return (x[3], x[2]) if ev.facts.entails(ne(x, ('call', 'end', x[2]))) else (None, None)
    return None, None


@rule('C12', 'registry', 'the registry holds exactly the pairs inserted and not erased, and knows how many')
def c12_registry(cx):
    con, cnt, mtx = MM + 'contents', MM + 'storedEntries', MM + 'mtx'
    n = 0
    for verb, ops, sign in (('insert', ('insert', 'emplace'), 1), ('erase', ('erase',), -1)):
        fs = cx.p.fns(MM + verb)
        cx.need(fs, MM + verb)
        for f in fs:
            s = f['name']
            k, v = P(f, 0), P(f, 1)
            for p, r, F in bool_cases(cx.paths(f, reads=True)):
                n += 1
                for e in p.events:
                    if e.kind == 'write' and any(x in loc_fields(e.loc) for x in (con, cnt)) or e.kind == 'call' and e.objloc and con in loc_fields(e.objloc):
                        cx.ob(held(e, mtx, 'w'), s, 'changes the registry alone', e.where(), p)
                calls = [e for e in p.events if e.kind == 'call' and e.name and e.name.startswith('std::set::') and e.name.split('::')[-1] in ('insert', 'emplace', 'erase', 'clear', 'merge', 'extract')]
                d = sub(p.final(thisloc(cnt)), this(cnt))
                if not calls:
                    x = ('call', 'find', this(con), k)
                    gone = kinds(F, this(con), k) is False
                    inner = [t for l in F.all() for t, _ in l[1] for y in [t] if len(y) > 3 and y[:1] == ('call',) and y[3] == v]
                    known = any(kinds(F, t[2], v) == (sign == 1) for t in inner)
                    cx.ob(not r and (sign == -1 and gone or known), s, 'does as asked', None, p)
                    cx.ob(d == ZERO, s, 'counts the pairs', None, p)
                    continue
                e = calls[0]
                key, m = setof(p, e)
                cx.ob(len(calls) == 1 and e.name.split('::')[-1] in ops and e.args == (v,) and key == k and m in (thisloc(con), this(con)), s, 'changes exactly the requested pair', e.where(), p)
                w = [x for x in p.events if x.kind == 'write' and x.n >= e.n and x.loc == e.objloc and x.val[:1] == ('mut',)]
                if not w:
                    cx.ob(False, s, 'changes exactly the requested pair', e.where(), p)
                    continue
                base = w[0].val[2]
                was = kinds(F, base, v)
                cx.ob(was is not None and (was == (sign == -1)) == bool(r), s, 'tells whether that changed anything', None, p)
                ch = ('call', e.name, base, v)
                ch = Engine.project(ch, SECOND) if sign == 1 else ch
                want = C(sign if r else 0)
                cx.ob(F.entails(eq(d, want)) or d == want or r and F.entails(ne(ch, ZERO)) and sub(d, mul_(ch, sign)) == ZERO or not r and F.entails(eq(ch, ZERO)) and sub(d, mul_(ch, sign)) == ZERO, s, 'counts the pairs', None, p)
                drops = [x for x in p.events if x.kind == 'call' and x.name and x.name.startswith('std::map::') and x.name.split('::')[-1] in ('erase', 'clear', 'extract')]
                for x in drops:
                    cx.ob(sign == -1 and x.name.endswith('::erase') and x.args and x.args[0] in (k, ('call', 'find', this(con), k)) and F.entails(eq(size(w[0].val), ZERO)) and x.n > e.n, s, 'a key is forgotten only with its last value', x.where(), p)
                if sign == -1:
                    cx.ob(bool(drops) or F.entails(ne(size(w[0].val), ZERO)), s, 'a key without values is forgotten', None, p)
    for f in cx.p.fns(MM + 'size'):
        for p in cx.paths(f, reads=True):
            n += 1
            cx.ob(p.val == this(cnt), f['name'], 'reports the number of pairs', None, p)
            for e in p.events:
                if e.kind == 'read' and e.loc == thisloc(cnt):
                    cx.ob(held(e, mtx), f['name'], 'under the lock', e.where(), p)
    cx.ob(n >= 6, MM, 'pairs are registered')


def mul_(v, k):
    return v if k == 1 else sub(ZERO, v)


def stage_rules(cx, cls, cont_of, item_of):
    """populateStage, next and the constructors of an iterator that reads ahead"""
    st, val, tgt, ssz = cls + 'stage', cls + 'isValid', cls + 'target', cls + 'stageSize'
    fs = cx.p.fns(cls + 'populateStage')
    cx.need(fs, cls + 'populateStage')
    n = 0
    for f in fs:
        s = f['name']
        last = P(f, 0)
        for p in cx.paths(f, reads=True):
            if p.outcome != 'return':
                continue
            F = p.facts
            tmap = ('f', ('d', this(tgt)), MM + 'contents')
            con = ('init', tmap)
            for e in p.events:
                if e.kind == 'read' and MM + 'contents' in loc_fields(e.loc) or e.kind == 'loop' and e.info == 'iterend':
                    cx.ob(held(e, MM + 'mtx'), s, 'reads ahead under the lock', e.where(), p)
            c, absent = cont_of(F, con)
            pb = [e for e in p.events if e.kind == 'call' and e.objloc == thisloc(st)]
            inval = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(val)]
            for e in inval:
                cx.ob(is_zero(e.val) and not pb, s, 'ends only at the end', e.where(), p)
            if absent:
                cx.ob(bool(inval) and not pb, s, 'ends when there is nothing', None, p)
                n += 1
                continue
            if c is None:
                cx.ob(False, s, 'looks up what it iterates over', None, p)
                continue
            haslast = F.entails(ne(last, ZERO))
            nolast = F.entails(eq(last, ZERO))
            cx.ob(haslast or nolast, s, 'tells the start from the middle', None, p)
            start = ('call', 'upper_bound', c, ('init', ('d', last))) if haslast else ('call', 'begin', c)
            end = ('call', 'end', c)
            if inval:
                n += 1
                cx.ob(F.entails(eq(start, end)) or nolast and nothing(F, c), s, 'ends only at the end', None, p)
                continue
            cx.ob(F.entails(ne(start, end)) or nolast and F.entails(ne(size(c), ZERO)), s, 'and then it does', None, p)
            lids = {x.val[1] for x in p.events if x.kind == 'loop'}
            cx.ob(len(lids) == 1, s, 'reads ahead', None, p)
            if len(lids) != 1:
                continue
            lid = lids.pop()
            begin = [x for x in loop_events(p, lid) if x.info == 'begin']
            if not begin:
                zero = [x for x in loop_events(p, lid) if x.info == 'zero']
                cx.ob(bool(zero) and F.entails(le(this(ssz), ZERO)), s, 'reads at least one ahead', None, p)
                continue
            its = [x for x in loop_events(p, lid) if x.info == 'iterend']
            var = [v for v, a, b in begin[0].args if a == start]
            cx.ob(len(var) == 1, s, 'from the next one on', begin[0].where(), p)
            if len(var) != 1:
                continue
            cur = [b for v, a, b in begin[0].args if v == var[0]][0]
            for x in its:
                n += 1
                G = x.facts
                nxt = [b for v, a, b in x.args if v == var[0]][0]
                cx.ob(nxt[:1] == ('mut',) and nxt[1].endswith('operator++') and nxt[2] == cur, s, 'one after the other', x.where(), p)
                mine = [e for e in pb if lid in e.loops]
                cx.ob(len(mine) == 1 and mine[0].name.split('::')[-1] in ('push_back', 'emplace_back') and mine[0].args == (item_of(cur),) and G.entails(ne(cur, end)), s, 'none left out', x.where(), p)
            ex = [x for x in loop_events(p, lid) if x.info == 'exit']
            cnt = [(v, a, b) for x in its for v, a, b in x.args if v != var[0] and a[:1] == ('hav',) and sub(b, a) in (C(1), C(-1))]
            ok = False
            if ex:
                left = [b for v, a, b in ex[0].args if v == var[0]]
                ok = bool(left) and F.entails(eq(left[0], end))
                for v, a, b in cnt:
                    at = [y for w, _, y in ex[0].args if w == v]
                    z = [y for w, y, _ in begin[0].args if w == v]
                    ok = ok or bool(at) and (z == [ZERO] and F.entails(ge(at[0], this(ssz))) or z == [this(ssz)] and F.entails(le(at[0], ZERO)))
                ok = ok or F.entails(ge(size(p.final(thisloc(st))), this(ssz)))
            else:
                ok = F.entails(eq(cur, end))
            cx.ob(ok, s, 'until the end, or enough are read', None, p)
            cx.ob(not [e for e in pb if lid not in e.loops], s, 'and nothing else', None, p)
    for f in cx.p.fns(cls + 'next'):
        s = f['name']
        for p in cx.paths(f, opaque=('~Iterator::populateStage$',)):
            F = p.facts
            po = p.calls('~Iterator::populateStage$')
            pops = [e for e in p.events if e.kind == 'call' and e.objloc == thisloc(st)]
            n += 1
            cx.ob(len(pops) == 1 and pops[0].name.endswith('::pop_front'), s, 'moves on by one', None, p)
            last = F.entails(le(size(this(st)), C(1)))
            cx.ob(len(po) == (1 if last else 0) and (last or F.entails(ne(size(this(st)), C(1))) or F.entails(gt(size(this(st)), C(1)))), s, 'reads ahead when the last one is left', None, p)
            for e in po:
                first = ('ix', thisloc(st), ZERO)
                cx.ob(any(e.args == (x,) for x in (('addr', first), ('addr', ('ix', thisloc(st), sub(size(this(st)), C(1)))))) and bool(pops) and e.n < pops[0].n and is_this(e.obj), s, 'from the last one on', e.where(), p)
    for f in cx.p.fns(cls + 'valid'):
        for p, r, F in bool_cases(cx.paths(f)):
            cx.ob(F.entails(ne(this(val), ZERO) if r else eq(this(val), ZERO)), f['name'], 'says whether it is at its end', None, p)
    for f in cx.p.fns(cls[:-2] + '::' + cls.split('::')[-2]):
        s = f['name']
        for p in cx.paths(f, opaque=('~Iterator::populateStage$',)):
            po = p.calls('~Iterator::populateStage$')
            if not f['params']:
                cx.ob(is_zero(p.final(thisloc(val))), s, 'iterates over nothing', None, p)
                continue
            cx.ob(len(po) == 1 and (po[0].args[0] == ('null',) or is_zero(po[0].args[0])), s, 'starts at the beginning', None, p)
            cx.ob(p.final(thisloc(tgt)) == P(f, 0) and p.final(thisloc(ssz)) == P(f, len(f['params']) - 1), s, 'over the given registry', None, p)
            w = [e for e in p.events if e.kind == 'write' and e.loc in (thisloc(tgt), thisloc(ssz), thisloc(val), thisloc(cls + 'targetKey'))]
            cx.ob(bool(po) and all(e.n < po[0].n for e in w) and any(e.loc == thisloc(val) and F_true(e.val) for e in w), s, 'knowing what over', None, p)
            if len(f['params']) == 3:
                cx.ob(p.final(thisloc(cls + 'targetKey')) == P(f, 1), s, 'for the given key', None, p)
    return n


def F_true(v):
    return v == C(1) or v == ('c', True)


def is_this(v):
    return v is None or v in (('init', ('d', ('this',))), ('this',)) or v[:1] == ('init',) and 'this' in str(v)


def forwards(cx, name, field, callee, args=None):
    """the function hands everything to the same operation of a member"""
    fs = cx.p.fns(name)
    cx.need(fs, name)
    for f in fs:
        for p in cx.paths(f, opaque=(callee,)):
            c = p.calls(callee)
            want = tuple(P(f, i) for i in range(len(f['params']))) if args is None else None
            cx.ob(len(c) == 1 and c[0].objloc == thisloc(field) and (want is None or c[0].args == want) and p.val == c[0].ret, f['name'], 'passes it on', None, p)
    return len(fs)


@rule('C12', 'iterate', 'iterating delivers what is staged and always comes to an end')
def c12_iterate(cx):
    n = stage_rules(cx, KI, lambda F, con: (con, nothing(F, con) and False), lambda it: ('init', ('f', ('d', it), FIRST)))

    def match(F, con):
        fnd = ('call', 'find', con, this(MI + 'targetKey'))
        end = ('call', 'end', con)
        if F.entails(eq(fnd, end)):
            return None, True
        if F.entails(ne(fnd, end)):
            return ('init', ('f', ('d', fnd), SECOND)), False
        return None, False
    n += stage_rules(cx, MI, match, lambda it: ('init', ('d', it)))
    first = lambda cls: {('call', '[]', this(cls + 'stage'), ZERO), ('call', 'front', this(cls + 'stage'))}
    for nm, ok in ((KI + 'getKey', first(KI)), (MI + 'getValue', first(MI)), (MI + 'getKey', {this(MI + 'targetKey')})):
        for f in cx.p.fns(nm):
            for p in cx.paths(f):
                n += 1
                cx.ob(p.val in ok, f['name'], 'delivers what it points to', None, p)
    for f in cx.p.fns(MI + 'erase'):
        for p in cx.paths(f, opaque=('~MultiMap::erase$',)):
            c = p.calls('~MultiMap::erase$')
            cx.ob(len(c) == 1 and c[0].objloc == ('d', this(MI + 'target')) and c[0].args[0] == this(MI + 'targetKey') and c[0].args[1] in first(MI) and p.val == c[0].ret, f['name'], 'erases what it points to', None, p)
    OPQ = ('~(Key|Match|Full)Iterator::', '~MultiMap::(findMatching|getKeyIterator|getFullIterator|erase)$')
    ki, mi, vl = FI + 'keyIter', FI + 'matchIter', FI + 'isValid'
    fs = cx.p.fns(FI + 'findValidMatchIter')
    cx.need(fs, FI + 'findValidMatchIter')
    for f in fs:
        n += walk_keys(cx, f, ki, mi, vl, lambda e: e.objloc == ('d', this(FI + 'target')), None)
    for f in cx.p.fns(FI + 'next'):
        s = f['name']
        for p in cx.paths(f, opaque=('~(Key|Match)Iterator::', '~findValidMatchIter$')):
            advance(cx, p, s, ki, mi, '~findValidMatchIter$')
    for f in cx.p.fns(FI + 'skipKey'):
        s = f['name']
        for p in cx.paths(f, opaque=('~(Key|Match)Iterator::', '~findValidMatchIter$')):
            kn, fv = [e for e in p.calls('~KeyIterator::next$') if e.objloc == thisloc(ki)], p.calls('~findValidMatchIter$')
            cx.ob(len(kn) == 1 and len(fv) == 1 and kn[0].n < fv[0].n, s, 'goes on with the next key', None, p)
    for f in cx.p.fns(FI + 'FullIterator'):
        for p in cx.paths(f, opaque=('~(Key|Match)Iterator::', '~findValidMatchIter$', '~getKeyIterator$')):
            fv, gk = p.calls('~findValidMatchIter$'), p.calls('~getKeyIterator$')
            if not f['params']:
                cx.ob(is_zero(p.final(thisloc(vl))), f['name'], 'iterates over nothing', None, p)
                continue
            cx.ob(len(fv) == 1 and len(gk) == 1 and gk[0].objloc in (('d', P(f, 0)), ('d', this(FI + 'target'))) and gk[0].args == (P(f, 1),) and gk[0].n < fv[0].n and p.final(thisloc(FI + 'target')) == P(f, 0) and p.final(thisloc(FI + 'valueStage')) == P(f, 2), f['name'], 'iterates over the given registry', None, p)
            cx.ob(any(e.kind == 'write' and e.loc == thisloc(ki) and gk and e.val == gk[0].ret and fv and e.n < fv[0].n for e in p.events), f['name'], 'from its first key on', None, p)
            cx.ob(any(e.kind == 'write' and e.loc == thisloc(vl) and F_true(e.val) for e in p.events), f['name'], 'is good to start with', None, p)
    for nm, callee in (('getKey', 'getKey'), ('getValue', 'getValue'), ('erase', 'erase')):
        n += forwards(cx, FI + nm, mi, '~MatchIterator::' + callee + '$')
    for f in cx.p.fns(FI + 'valid'):
        for p, r, F in bool_cases(cx.paths(f)):
            cx.ob(F.entails(ne(this(vl), ZERO) if r else eq(this(vl), ZERO)), f['name'], 'says whether it is at its end', None, p)
    for nm, cls in (('getKeyIterator', 'Key'), ('findMatching', 'Match'), ('getFullIterator', 'Full')):
        for f in cx.p.fns(MM + nm):
            want = (('this',),) + tuple(P(f, i) for i in range(len(f['params'])))
            for p in cx.paths(f, opaque=('~Iterator::',)):
                c = p.calls('~%sIterator::%sIterator$' % (cls, cls)) or [e for e in p.events if e.kind == 'new']
                v = [x for x in subterms(p.val) if x[:1] == ('ctor',)] if p.val is not None else []
                a = [e.args for e in c] + [x[2] for x in v]
                cx.ob(want in a, f['name'], 'iterates over this registry', None, p)
    for f, nd in callers(cx, *[MM + x for x in ('getKeyIterator', 'findMatching', 'getFullIterator')]):
        for a in nd.get('a', ()):
            x = a
            while isinstance(x, dict) and x.get('k') in ('defarg', 'cast', 'paren'):
                x = x.get('e')
            if isinstance(x, dict) and x.get('k') in ('int', 'num', 'lit') and isinstance(x.get('v'), int):
                n += 1
                cx.ob(x['v'] > 0, f['name'], 'reads at least one ahead', '%s:%s' % (f['file'], nd.get('line')))
    for nm in ('insert', 'erase'):
        n += forwards(cx, PM + nm, PM + 'contents', '~MultiMap::%s$' % nm)
    n += forwards(cx, PM + 'size', PM + 'contents', '~MultiMap::size$')
    ki, mi, vl = PI + 'keyIterator', PI + 'matchIterator', PI + 'isValid'
    own = lambda e: e.objloc == ('f', ('d', this(PI + 'matcher')), PM + 'contents')
    fs = cx.p.fns(PI + 'advanceFirstIteratorUntilMatch')
    cx.need(fs, PI + 'advanceFirstIteratorUntilMatch')
    for f in fs:
        n += walk_keys(cx, f, ki, mi, vl, own, this(PI + 'key'))
    for f in cx.p.fns(PI + 'next'):
        for p in cx.paths(f, opaque=('~(Key|Match)Iterator::', '~advanceFirstIteratorUntilMatch$')):
            advance(cx, p, f['name'], ki, mi, '~advanceFirstIteratorUntilMatch$')
    for f in cx.p.fns(PI + 'Iterator'):
        for p in cx.paths(f, opaque=('~(Key|Match)Iterator::', '~advanceFirstIteratorUntilMatch$', '~getKeyIterator$')):
            fv, gk = p.calls('~advanceFirstIteratorUntilMatch$'), p.calls('~getKeyIterator$')
            cx.ob(len(fv) == 1 and len(gk) == 1 and gk[0].n < fv[0].n and gk[0].objloc in (('f', ('d', P(f, 0)), PM + 'contents'), ('f', ('d', this(PI + 'matcher')), PM + 'contents')) and p.final(thisloc(PI + 'matcher')) == P(f, 0) and p.final(thisloc(PI + 'key')) == P(f, 1), f['name'], 'looks the given key up', None, p)
            cx.ob(any(e.kind == 'write' and e.loc == thisloc(ki) and gk and e.val == gk[0].ret and fv and e.n < fv[0].n for e in p.events), f['name'], 'from the first pattern on', None, p)
            cx.ob(any(e.kind == 'write' and e.loc == thisloc(vl) and F_true(e.val) for e in p.events), f['name'], 'is good to start with', None, p)
    for nm, callee, fld in (('getPattern', '~KeyIterator::getKey$', ki), ('getValue', '~MatchIterator::getValue$', mi), ('erase', '~MatchIterator::erase$', mi)):
        n += forwards(cx, PI + nm, fld, callee)
    for f in cx.p.fns(PI + 'valid'):
        for p, r, F in bool_cases(cx.paths(f)):
            cx.ob(F.entails(ne(this(vl), ZERO) if r else eq(this(vl), ZERO)), f['name'], 'says whether it is at its end', None, p)
    cx.ob(n > 40, MM, 'iterators are there')


def advance(cx, p, s, ki, mi, find):
    F = p.facts
    mn = [e for e in p.calls('~MatchIterator::next$') if e.objloc == thisloc(mi)]
    mv = [e for e in p.calls('~MatchIterator::valid$') if e.objloc == thisloc(mi) and mn and e.n > mn[0].n]
    kn = [e for e in p.calls('~KeyIterator::next$') if e.objloc == thisloc(ki)]
    fv = p.calls(find)
    cx.ob(len(mn) == 1 and bool(mv), s, 'moves on by one', None, p)
    if not mv:
        return
    if F.entails(ne(mv[0].ret, ZERO)):
        cx.ob(not kn and not fv, s, 'stays with the key while it has values', None, p)
    else:
        cx.ob(F.entails(eq(mv[0].ret, ZERO)) and len(kn) == 1 and len(fv) == 1 and mv[0].n < kn[0].n < fv[0].n, s, 'then goes on with the next one', None, p)


def walk_keys(cx, f, ki, mi, vl, on, key):
    """goes through the keys until one has values (and matches)"""
    s = f['name']
    n = 0
    OPQ = ('~(Key|Match)Iterator::', '~MultiMap::findMatching$')
    for p in cx.paths(f, opaque=OPQ, pure=('~stringmatchlen$',)):
        F = p.facts
        if p.outcome == 'throw':
            cx.ob(False, s, 'comes to an end', None, p)
            continue
        kv = [e for e in p.calls('~KeyIterator::valid$') if e.objloc == thisloc(ki)]
        kk = [e for e in p.calls('~KeyIterator::getKey$') if e.objloc == thisloc(ki)]
        kn = [e for e in p.calls('~KeyIterator::next$') if e.objloc == thisloc(ki)]
        fm, mv = p.calls('~findMatching$'), p.calls('~MatchIterator::valid$')
        sm = p.calls('~stringmatchlen$')
        for e in fm:
            n += 1
            cx.ob(on(e) and any(e.args[0] == x.ret for x in kk), s, 'looks up the key it is at', e.where(), p)
            cx.ob(any(x.kind == 'write' and x.loc == thisloc(mi) and x.val == e.ret for x in p.events), s, 'and keeps what it found', e.where(), p)
        for e in kk:
            cx.ob(any(x.n < e.n and e.facts.entails(ne(x.ret, ZERO)) for x in kv), s, 'only while there are keys', e.where(), p)
        hits = []
        if key is not None:
            for k in kk:
                m = (Q + 'stringmatchlen', ('call', 'data', k.ret), size(k.ret), ('call', 'data', key), size(key), ZERO)
                hits.append(('call',) + m)
            for l in F.all():
                for t, _ in l[1]:
                    if is_call(t, Q + 'stringmatchlen'):
                        cx.ob(t in hits, s, 'matches the pattern against the key', None, p)
        for x in p.events:
            if x.kind == 'loop' and x.info == 'iterend':
                n += 1
                mine = [e for e in kn if x.val[1] in e.loops]
                cx.ob(len(mine) == 1, s, 'goes on with the next key each time, or never ends', x.where(), p)
                for e in mine:
                    no = [y for y in mv if y.n < e.n and e.facts.entails(eq(y.ret, ZERO))]
                    mm = [h for h in hits if e.facts.entails(ne(h, C(1))) or e.facts.entails(eq(h, ZERO))]
                    cx.ob(bool(no) or bool(mm), s, 'passes over no key that has values' + (' and matches' if key else ''), e.where(), p)
        dead = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(vl)]
        if dead:
            cx.ob(all(is_zero(e.val) for e in dead) and bool(kv) and F.entails(eq(kv[-1].ret, ZERO)), s, 'ends when there are no more keys', None, p)
        else:
            n += 1
            cx.ob(bool(mv) and bool(fm) and F.entails(ne(mv[-1].ret, ZERO)) and mv[-1].objloc == thisloc(mi), s, 'stops at a key that has values', None, p)
            if key is not None:
                cx.ob(any(F.entails(eq(h, C(1))) or F.entails(ne(h, ZERO)) for h in hits), s, 'and matches', None, p)
            cx.ob(not kn or not fm or kn[-1].n < fm[-1].n, s, 'and stays there', None, p)
    return n


@rule('C12', 'publish', 'messages go to every matching subscriber, and requests change just the subscriptions they name')
def c12_publish(cx):
    OPQ = ('~(Match|Key|Full)Iterator::', '~SimplePatternMatcher::', '~MultiMap::', '~PendingQueue::')
    n = 0
    cs, pmf = PUB + 'channelSubscriptions', PUB + 'patternMatcher'
    for nm, fld, verb in (('subscribe', cs, 'insert'), ('psubscribe', pmf, 'insert'), ('unsubscribe', cs, 'erase'), ('punsubscribe', pmf, 'erase')):
        f = cx.fn(PUB + nm)
        s = f['name']
        for p in cx.paths(f, opaque=OPQ):
            if p.outcome != 'return':
                continue
            n += 1
            q = p.calls('~PendingQueue::')
            c = [e for e in p.calls('~::(insert|erase)$')]
            cx.ob(len(q) == 1 and q[0].name == PQ + nm and q[0].objloc == ('d', P(f, 0)) and q[0].args == (P(f, 1),), s, 'the connection knows about it', None, p)
            cx.ob(len(c) == 1 and c[0].name.split('::')[-1] == verb and c[0].objloc == thisloc(fld) and c[0].args == (P(f, 1), P(f, 0)), s, 'and so does the registry', None, p)
            cx.ob(bool(c) and bool(q) and (p.val == c[0].ret) and (q[0].n < c[0].n), s, 'tells whether that changed anything', None, p)
    for nm, fld, look, msg in (('publishChannels', cs, '~findMatching$', 'addMessageIfAttached'), ('publishPatterns', pmf, '~SimplePatternMatcher::find$', 'addPatternMessageIfAttached')):
        f = cx.fn(PUB + nm)
        s = f['name']
        for p in cx.paths(f, opaque=OPQ):
            if p.outcome != 'return':
                continue
            F = p.facts
            lk = p.calls(look)
            cx.ob(len(lk) == 1 and lk[0].objloc == thisloc(fld) and lk[0].args[0] == P(f, 0), s, 'looks up those who listen', None, p)
            its = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend']
            va = p.calls('~Iterator::valid$')
            cx.ob(bool(va) and F.entails(eq(va[-1].ret, ZERO)), s, 'goes through all of them', None, p)
            if not its:
                cx.ob(p.val == ZERO, s, 'counts those reached', None, p)
                continue
            n += 1
            x = its[0]
            G = x.facts
            g, m, er, nx = p.calls('~Iterator::getValue$'), p.calls('~' + msg + '$'), p.calls('~Iterator::erase$'), p.calls('~Iterator::next$')
            pat = p.calls('~Iterator::getPattern$')
            want = (P(f, 0), P(f, 1)) if not pat else (pat[0].ret, P(f, 0), P(f, 1))
            cx.ob(len(m) == 1 and bool(g) and m[0].objloc == ('d', g[0].ret) and m[0].args == want and (bool(pat) == nm.endswith('Patterns')), s, 'sends each the message', None, p)
            cx.ob(len(nx) == 1 and bool(m) and nx[0].n > m[0].n and all(m[0].n < e.n < nx[0].n for e in er), s, 'one after the other', None, p)
            fl = folds(p, p.val)
            cx.ob(fl is not None and fl[0] == ZERO, s, 'counts those reached', None, p)
            if not m or fl is None:
                continue
            alive = G.entails(ne(m[0].ret, ZERO))
            cx.ob(alive or G.entails(eq(m[0].ret, ZERO)) or sub(fl[2], fl[1]) == m[0].ret, s, 'counts those reached', None, p)
            cx.ob(len(er) == (0 if alive else 1), s, 'forgets just those that are gone', None, p)
            cx.ob(sub(fl[2], fl[1]) in (C(1) if alive else ZERO, m[0].ret), s, 'counts those reached', None, p)
    f = cx.fn(PUB + 'publish')
    for p in cx.paths(f, opaque=('~publish(Channels|Patterns)$',)):
        a, b = p.calls('~publishChannels$'), p.calls('~publishPatterns$')
        n += 1
        cx.ob(len(a) == len(b) == 1 and a[0].args == b[0].args == (P(f, 0), P(f, 1)) and p.val == add(a[0].ret, b[0].ret), f['name'], 'reaches channels and patterns', None, p)
    f = cx.fn(PUB + 'purgeListeners')
    s = f['name']
    for p in cx.paths(f, opaque=OPQ):
        if p.outcome != 'return':
            continue
        for fld in (cs, pmf):
            lk = [e for e in p.calls('~getFullIterator$') if e.objloc == thisloc(fld)]
            cx.ob(len(lk) == 1, s, 'goes through all who listen', None, p)
        va = p.calls('~Iterator::valid$')
        cx.ob(len([e for e in va if p.facts.entails(eq(e.ret, ZERO))]) == 2, s, 'goes through all who listen', None, p)
        for x in [x for x in p.events if x.kind == 'loop' and x.info == 'iterend']:
            n += 1
            mine = lambda rx: [e for e in p.calls(rx) if x.val[1] in e.loops]
            g, m, er, nx = mine('~Iterator::getValue$'), mine('~appendIfAttached$'), mine('~Iterator::erase$'), mine('~Iterator::(next|skipKey)$')
            cx.ob(len(m) == 1 and bool(g) and m[0].objloc == ('d', g[0].ret) and m[0].args == (P(f, 0),), s, 'tells each', x.where(), p)
            cx.ob(len(er) == 1 and len(nx) == 1 and nx[0].name.endswith('::next') and er[0].n < nx[0].n, s, 'and forgets it', x.where(), p)
    f = cx.fn(PUB + 'dispatch', pred=lambda g: 'RedisRequest' in g['params'][1]['t'])
    s = f['name']
    DOP = ('~Connection::', '~Publisher::(subscribe|psubscribe|unsubscribe|punsubscribe|publish)$', '~Formatter::', '~PendingQueue::')
    seen = set()
    for p in cx.paths(f, opaque=DOP, pure=('~Connection::getQueue$',)):
        cs_ = p.calls('~Publisher::(subscribe|psubscribe|unsubscribe|punsubscribe)$')
        if not cs_:
            continue
        nm = cs_[0].name.split('::')[-1]
        seen.add(nm)
        n += 1
        cx.ob(len(cs_) == 1 and contains_cmd(p, nm.upper()), s, 'does what the command says', cs_[0].where(), p)
        e = cs_[0]
        arg = e.args[1]
        qs = p.calls('~Connection::getQueue$')
        cx.ob(bool(qs) and any(e.args[0] == x.ret for x in qs), s, 'for this connection', e.where(), p)
        fm = [x for x in p.calls('~Formatter::') if x.loops == e.loops and x.name.split('::')[-1] == nm]
        sub_loc = [x for x in p.events if x.kind == 'write' and last_field(x.loc) == PQ + 'subscriptions']
        cx.ob(len(sub_loc) == 1 and sub_loc[0].loops == e.loops and sub_loc[0].n > e.n, s, 'counts the subscriptions', e.where(), p)
        for w in sub_loc:
            co = dict(w.val[2]) if w.val[:1] == ('lin',) else {}
            cx.ob(w.val[:1] == ('lin',) and w.val[1] == 0 and co.get(e.ret) == (-1 if nm.startswith(('un', 'pun')) else 1) and len(co) == 2 and all(v == 1 for k, v in co.items() if k != e.ret), s, 'counts the subscriptions', w.where(), p)
            for x in fm:
                cx.ob(x.n > w.n and x.args[1] == arg and x.args[2] == w.val and pushes(x.args[0]), s, 'acknowledges with the new count', x.where(), p)
                cx.ob(any(y.args and y.args[0] == x.ret for y in p.calls('~Connection::raw$')), s, 'and sends that', x.where(), p)
        lids = e.loops
        if not fm and lids:
            it = [x for x in loop_events(p, lids[-1]) if x.info == 'iterend']
            bg = [x for x in loop_events(p, lids[-1]) if x.info == 'begin']
            cx.ob(bool(it) and bool(bg) and any(it[0].facts.entails(lt(c, ZERO)) for v, a, c in bg[0].args), s, 'acknowledges each', e.where(), p)
        cx.ob(len(lids) == 1 and index_of(arg) is not None and covers(p, e, index_of(arg), C(1), size(Engine.project(P(f, 1), Q + 'RedisRequest::contents'))), s, 'for every name given', e.where(), p)
    cx.ob(seen == {'subscribe', 'psubscribe', 'unsubscribe', 'punsubscribe'}, s, 'serves all four', None)
    cx.ob(n > 15, PUB, 'messages are published')


def pushes(v):
    return is_ret(v, Q + 'Connection::hasPushTypesActive') or 'hasPushTypesActive' in str(v)


def index_of(a):
    for x in subterms(a):
        if is_call(x, '[]') and len(x) == 4:
            return x[3]
        if x[:1] == ('ix',) and len(x) == 3:
            return x[2]
    return None


def contains_cmd(p, name):
    return any(('e', Q + 'RedisCommand::' + name) in list(subterms(t)) or str(l).find('RedisCommand::' + name + "'") >= 0 for l in p.facts.all() if l[0] == 'eq' for t, _ in l[1])


@rule('C12', 'revisions', 'every recorded change of a versioned hash is published, in order, once')
def c12_revisions(cx):
    f = cx.fn(PUB + 'asyncPublisher')
    s = f['name']
    VT = Q + 'VersionedHashRevisionTracker::contents'
    n = 0
    for p in cx.paths(f, opaque=('~Publisher::publish$', '~ThreadAssistant|WaitableQueue|VersionedHashRevision::')):
        F = p.facts
        tr = p.calls('~ThreadAssistant::terminationRequested$')
        if p.outcome == 'return':
            cx.ob(bool(tr) and F.entails(ne(tr[-1].ret, ZERO)), s, 'ends only when told to', None, p)
        get, pop, nxt = p.calls('~WaitableQueue::Iterator::getItemBlockOrNull$'), p.calls('~WaitableQueue::pop_front$'), p.calls('~WaitableQueue::Iterator::next$')
        pu = p.calls('~Publisher::publish$')
        for e in get[:1]:
            item = e.ret
            if not F.entails(ne(item, ZERO)):
                cx.ob(F.entails(eq(item, ZERO)) and not pop and not nxt and not pu, s, 'drops nothing it has not published', e.where(), p)
                continue
            n += 1
            cx.ob(len(pop) == len(nxt) == 1 and pop[0].objloc == thisloc(PUB + 'revisionQueue') and pop[0].loops == e.loops == nxt[0].loops and all(x.n < pop[0].n for x in pu), s, 'takes each once it is published', e.where(), p)
            cont = ('init', ('f', ('d', item), VT))
            if not pu:
                cx.ob(F.entails(eq(('call', 'begin', cont), ('call', 'end', cont))) or nothing(F, cont) or any(x.kind == 'loop' and x.info == 'zero' and x.obj == cont for x in p.events), s, 'publishes all changes', e.where(), p)
                continue
            x = pu[0]
            lid = x.loops[-1]
            name, body = shape(p, x.args[0]), x.args[1]
            cx.ob(len(name) == 2 and name[0] == ('s', '__vhash@') and is_ret(body, Q + 'VersionedHashRevision::serialize'), s, 'under the name of the hash', x.where(), p)
            if len(name) != 2:
                continue
            el, path = peel(name[1])
            sr = [y for y in p.calls('~VersionedHashRevision::serialize$') if y.ret == body]
            cx.ob(bool(sr) and str(name[1]).endswith("'%s'))" % FIRST) or FIRST in str(name[1]), s, 'under the name of the hash', x.where(), p)
            bg = [y for y in loop_events(p, lid) if y.info == 'begin']
            its = [y for y in loop_events(p, lid) if y.info == 'iterend']
            ex = [y for y in loop_events(p, lid) if y.info == 'exit']
            ok = False
            if bg and bg[0].obj == cont:
                ok = ('elem', cont, lid) in list(subterms(name[1])) and bool(sr) and ('elem', cont, lid) in list(subterms(sr[0].obj)) and bool(ex)
            elif bg:
                for v, a, b in bg[0].args:
                    if a != ('call', 'begin', cont):
                        continue
                    end = [c for y in ex for w, _, c in y.args if w == v]
                    t = [l for y in ex for l in y.facts.all() if l[0] == 'eq' and end and any(q == end[0] for q, _ in l[1]) and any(is_call(q, 'end') and VT in str(q) for q, _ in l[1])]
                    ok = bool(ex) and bool(t) and all(stepped(c, d) for y in its for w, c, d in y.args if w == v) and b in list(subterms(name[1])) and bool(sr) and (b in list(subterms(sr[0].obj)) or str(b) in str(sr[0].objloc))
            cx.ob(ok, s, 'publishes all changes', x.where(), p)
    f = cx.fn(PUB + 'schedulePublishing')
    for p in cx.paths(f, opaque=('~WaitableQueue',)):
        c = p.calls('~WaitableQueue::(emplace_back|push_back)$')
        n += 1
        cx.ob(len(c) == 1 and c[0].objloc == thisloc(PUB + 'revisionQueue') and c[0].args == (P(f, 0),), f['name'], 'changes are taken down', None, p)
    f = cx.fn(PUB + 'dispatch', pred=lambda g: 'RedisRequest' in g['params'][1]['t'])
    word = lambda i: ('call', '[]', Engine.project(P(f, 1), Q + 'RedisRequest::contents'), C(i))
    m = 0
    for p in cx.paths(f, opaque=('~Connection::', '~Publisher::(subscribe|psubscribe|unsubscribe|punsubscribe|publish)$', '~Formatter::', '~PendingQueue::')):
        for e in p.calls('~Publisher::publish$'):
            m += 1
            cx.ob(e.args == (word(1), word(2)) and contains_cmd(p, 'PUBLISH'), f['name'], 'publishes what was asked', e.where(), p)
            cx.ob(any(y.args == (e.ret,) for y in p.calls('~Connection::integer$')), f['name'], 'and tells how many heard it', e.where(), p)
    cx.ob(n > 2 and m > 0, s, 'changes are published')
