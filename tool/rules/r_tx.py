"""Transactions and request filters: C05, C06, C07, C08."""
from qdb.common import *

T = 'quarkdb::Transaction::'
RR = 'quarkdb::RedisRequest::'
CT = 'quarkdb::CommandType::'
RC = 'quarkdb::RedisCommand::'
I2B = 'quarkdb::intToBinaryString'
B2I = 'quarkdb::binaryStringToInt'
REQS, HASW, PHAN = T + 'requests', T + 'hasWrites', T + 'phantom'
SUB = ('~PinnedBuffer::substr$',)
OPQ = ('~toPrintableString$', '~operator<<$')


def each(p, part, cont):
    """predicate for 'an element of the container, visited from the first to the last by the loop of part'"""
    return lambda v: visits(p, [part[1]], v, cont)


def contents_of(el):
    return lambda c: c[:1] == ('.',) and c[2] == RR + 'contents' and el(c[1])


def i2b_size(v, cont):
    return is_call(v, I2B) and is_call(v[2], 'size') and cont(v[2][2])


@rule('C06', 'serialize', 'a serialized transaction is the number of requests, and for each the number of its words and each word after its length')
def c06_serialize(cx):
    int_codec(cx)
    f = cx.fn(T + 'serialize')
    R = this(REQS)
    n = 0
    for p in cx.paths(f, opaque=OPQ):
        if p.outcome != 'return':
            continue
        sh = shape(p, p.val)
        cx.ob(bool(sh) and i2b_size(sh[0], lambda c: c == R), f['name'], 'starts with the number of requests', None, p)
        rest = sh[1:]
        if not rest:
            cx.ob(p.facts.entails(le(size(R), ZERO)), f['name'], 'leaves out the requests only when there are none', None, p)
            continue
        ok_ = len(rest) == 1 and rest[0][0] == 'rep'
        cx.ob(ok_, f['name'], 'then comes each request', None, p)
        if not ok_:
            continue
        el = each(p, rest[0], lambda c: c == R)
        b = rest[0][2]
        cx.ob(bool(b) and i2b_size(b[0], contents_of(el)), f['name'], 'each request starts with the number of its words', None, p)
        if len(b) == 1:
            cx.ob(bool(zero_loops(p)) and p.facts.entails(le(b[0][2], ZERO)), f['name'], 'leaves out the words only when there are none', None, p)
            continue
        ok_ = len(b) == 2 and b[1][0] == 'rep'
        cx.ob(ok_, f['name'], 'then come its words', None, p)
        if not ok_:
            continue
        n += 1
        wd = each(p, b[1], contents_of(el))
        w = b[1][2]
        cx.ob(len(w) == 2 and i2b_size(w[0], wd) and (wd(w[1]) or is_call(w[1], '~^(std::)?string') and wd(w[1][2])), f['name'], 'each word follows its length', None, p)
    cx.ob(n, f['name'], 'writes words')


def reads_in_order(cx, p, f, src, cur, reads, takes):
    """the integers and words are taken from src one after another, from position 0 on; cur is the
    variable holding the position. Returns the position at the end of p."""
    pos = ZERO
    data = ('call', 'data', src)
    good = True
    for e in p.events:
        if e.kind == 'loop' and e.info != 'zero':
            for v, a, b in e.args or ():
                if v != cur:
                    continue
                if e.info == 'begin':
                    good = good and a == pos
                    pos = b
                elif e.info == 'iterend':
                    good = good and b == pos
                else:
                    pos = b
        elif e in reads:
            off = sub(e.args[0], data)
            good = good and off == pos
            cx.ob(off == pos, f['name'], 'integers are read one after the other', e.where(), p)
            cx.ob(e.facts.entails(ge(sub(size(src), pos), C(8))), f['name'], 'an integer is read only if all of it is there', e.where(), p)
            pos = add(pos, C(8))
        elif e in takes:
            off, ln = takes[e]
            cx.ob(off == pos, f['name'], 'words follow their length', e.where(), p)
            cx.ob(e.facts.entails(ge(sub(size(src), pos), ln)) and e.facts.entails(ge(ln, ZERO)), f['name'], 'a word is taken only if all of it is there', e.where(), p)
            pos = add(pos, ln)
    cx.ob(good, f['name'], 'the position moves by what was read', None, p)
    return pos


def chunk(v, src):
    """(offset, length) if v is a piece of the bytes of src"""
    data = ('call', 'data', src)
    for x in subterms(v):
        if is_call(x, '~(^|::)(string_view|string|substr)$') and len(x) >= 5 and x[2] == src:
            return x[3], x[4]
        if is_call(x, '~(^|::)(string_view|string)$') and len(x) == 4 and data in subterms(x[2]):
            return sub(x[2], data), x[3]
        if x[:1] == ('ctor',) and len(x[2]) == 2 and data in subterms(x[2][0]):
            return sub(x[2][0], data), x[2][1]
    return None


@rule('C06', 'deserialize', 'a serialized transaction is read in the order and width it was written, all of it, or refused')
def c06_deserialize(cx):
    int_codec(cx)
    f = cx.fn(T + 'deserialize', 1, lambda f: 'PinnedBuffer' in f['key'])
    src = P(f, 0)
    inner = [g for g in cx.p.fns(T + 'deserializeContents')]
    paths = cx.paths(f, opaque=OPQ, pure=SUB)
    body = inner[0] if inner else f
    src = P(body, 0)
    R0 = this(REQS)
    n = full = 0
    for p, r, F in bool_cases(cx.paths(body, opaque=OPQ, pure=SUB)):
        if not r:
            continue
        reads = [e for e in p.calls(B2I) if len(e.args) == 1]
        takes = {}
        for e in p.calls('~vector::(push_back|emplace_back)$'):
            if e.args and (c := chunk(e.args[0], src)):
                takes[e] = (c[0], c[1])
        vs = {}
        for e in p.events:
            if e.kind == 'loop' and e.info == 'begin':
                for v, a, b in e.args or ():
                    if any(b in subterms(x.args[0]) for x in reads):
                        vs[v] = 1
        # the reading position is the variable the offsets of all reads inside loops are made of
        cur = None
        for v in vs:
            if all(not x.loops or any(b in subterms(x.args[0]) for l in x.loops for e in loop_events(p, l) if e.info in ('begin', 'exit') for v2, a, b in e.args or () if v2 == v) for x in reads):
                cur = v
        n += 1
        pos = reads_in_order(cx, p, body, src, cur, reads, takes)
        cx.ob(F.entails(eq(size(src), pos)), body['name'], 'accepts only if nothing is left over', None, p)
        first = [e for e in reads if not e.loops]
        ok_ = len(first) == 1 and first[0].ret is not None
        cx.ob(ok_, body['name'], 'reads how many requests there are', None, p)
        if not ok_:
            continue
        total = first[0].ret
        news = [e for e in p.calls('~vector::(push_back|emplace_back)$') if e.objloc == thisloc(REQS)]
        cx.ob(p.facts.entails(le(total, ZERO)) if not news else len(news) == 1, body['name'], 'each announced request becomes a request', None, p)
        cx.ob(p.facts.entails(ge(total, ZERO)), body['name'], 'a negative count is refused', None, p)
        if not news:
            cx.ob(not takes, body['name'], 'no request, no words', None, p)
            continue
        second = [e for e in reads if len(e.loops) == 1]
        ok_ = len(second) == 1 and runs(p, news[0], total)
        cx.ob(ok_, body['name'], 'as many requests as announced', news[0].where(), p)
        if not ok_:
            continue
        words = second[0].ret
        cx.ob(second[0].facts.entails(ge(words, ZERO)) or p.facts.entails(ge(words, ZERO)), body['name'], 'a negative number of words is refused', None, p)
        if not takes:
            cx.ob(p.facts.entails(le(words, ZERO)), body['name'], 'words are left out only when there are none', None, p)
            continue
        full += 1
        third = [e for e in reads if len(e.loops) == 2]
        tk = list(takes)
        cx.ob(len(third) == 1 and len(tk) == 1 and runs(p, tk[0], words) and third[0].n < tk[0].n and takes[tk[0]][1] == third[0].ret, body['name'], 'as many words as announced, each as long as announced', tk[0].where(), p)
        cx.ob(latest(tk[0], news[0], p), body['name'], 'words go to the request just read', tk[0].where(), p)
    # refused only for a reason
    for p, r, F in bool_cases(cx.paths(body, opaque=OPQ, pure=SUB)):
        if r:
            continue
        reads = [e for e in p.calls(B2I) if len(e.args) == 1]
        takes = {}
        for e in p.calls('~vector::(push_back|emplace_back)$'):
            if e.args and (c := chunk(e.args[0], src)):
                takes[e] = (c[0], c[1])
        left = ends_at(p, src, reads, takes)
        why = any(F.entails(lt(sub(size(src), pos), C(8))) or F.entails(ne(sub(size(src), pos), ZERO)) and not any(e.kind == 'loop' and e.info == 'begin' and not any(x.kind == 'loop' and x.info == 'exit' and x.val[1] == e.val[1] for x in p.events) for e in p.events) for pos in left)
        why = why or reads and (F.entails(lt(reads[-1].ret, ZERO)) or any(F.entails(lt(sub(size(src), pos), reads[-1].ret)) for pos in left))
        why = why or any(none_of(F, [eq(t, ('e', CT + k)) for k in ('READ', 'WRITE')]) for t in commandtypes(F))
        cx.ob(why, body['name'], 'refuses only what is malformed', None, p)
    for p in cx.paths(body, opaque=OPQ, pure=SUB):
        cx.ob(p.outcome != 'throw', body['name'], 'a malformed transaction is refused, not fatal', None, p)
    if inner:
        for p, r, F in bool_cases(cx.paths(f, opaque=OPQ + ('~Transaction::deserializeContents$',))):
            d = p.calls('~Transaction::deserializeContents$')
            cx.ob(len(d) == 1 and d[0].args[0] == P(f, 0) and F.entails((ne if r else eq)(d[0].ret, ZERO)), f['name'], 'accepts exactly what is well-formed', None, p)
    cx.ob(n and full, body['name'], 'accepts transactions')
    # on refusal nothing is left behind
    k = 0
    for p in paths:
        if p.outcome != 'return':
            continue
        if possible(p.facts, ne(p.val, ZERO)) and not p.facts.entails(eq(p.val, ZERO)):
            continue
        k += 1
        w = last_written(p, thisloc(REQS))
        h = last_written(p, thisloc(HASW))
        touched = any(e.kind == 'write' and e.loc[:2] == ('f', ('d', ('this',))) or e.kind == 'call' and e.objloc == thisloc(REQS) for e in p.events)
        cx.ob(not touched or is_empty(w) and h is not None and p.facts.entails(eq(h, ZERO)), f['name'], 'a refused transaction leaves nothing behind', None, p)
    cx.ob(k, f['name'], 'refuses')


def ends_at(p, src, reads, takes):
    """the positions up to which the bytes of src were used at the end of p"""
    last = None
    for e in p.events:
        if e in reads:
            last = (e, add(sub(e.args[0], ('call', 'data', src)), C(8)))
        elif e in takes:
            last = (e, add(*takes[e]))
    out = [last[1]] if last else [ZERO]
    for e in p.events:
        if e.kind == 'loop' and e.info in ('begin', 'exit') and (not last or e.n > last[0].n):
            out += [b for v, a, b in e.args or () if b is not None]
    return out


def is_empty(v):
    return v is not None and v[0] == 'ctor' and not v[2]


def runs(p, e, total):
    """the innermost loop around e has exactly total turns"""
    for lid in reversed(e.loops):
        for x in loop_events(p, lid):
            if x.info == 'begin':
                for v, a, b in x.args or ():
                    if is_zero(a) and covers(p, e, b, C(0), total):
                        return True
        return False
    return False


def latest(take, new, p):
    """take's object lives in the request appended by new in the same turn"""
    loc = take.objloc
    l = loc
    while l and l[0] == 'f':
        if l[1][0] == 'ix' and l[1][1] == thisloc(REQS):
            ix = l[1][2]
            for lid in new.loops:
                for x in loop_events(p, lid):
                    if x.info == 'begin' and any(b == ix and is_zero(a) for v, a, b in x.args or ()):
                        return True
            return take.facts.eqv(ix, sub(size(new.obj), C(0)))
        l = l[1]
    v = take.obj
    return v is not None and any(is_call(x, 'back') for x in subterms(v))


@rule('C06', 'writes', 'a transaction is treated as a write exactly if it contains a write')
def c06_writes(cx):
    adders = 0
    for f in public_methods(cx, 'quarkdb::Transaction'):
        if f['name'].endswith('::~Transaction'):
            continue
        for p in cx.paths(f, opaque=OPQ + ('~Transaction::serialize$',), pure=SUB):
            if p.outcome != 'return':
                continue
            s = f['name']
            ws = [e for e in p.events if e.kind == 'write' and e.loc == thisloc(HASW)]
            rs = [e for e in p.calls('~vector::(push_back|emplace_back)$') if e.objloc == thisloc(REQS)]
            if not rs:
                if not ws and not any(e.kind == 'write' and e.loc == thisloc(REQS) for e in p.events):
                    continue
                w, h = p.final(thisloc(REQS)), p.final(thisloc(HASW))
                cx.ob(is_empty(w) or not ws or s.endswith('::Transaction'), s, 'forgetting the writes goes with forgetting the requests', None, p)
                cx.ob(not is_empty(w) or p.facts.entails(eq(h, ZERO)), s, 'an emptied transaction has no writes', None, p)
                continue
            adders += 1
            for e in ws:
                v = e.val
                if e.old is not None and (e.facts.entails(eq(v, ZERO)) and e.facts.entails(eq(e.old, ZERO)) or v in (TRUE, C(1)) and e.facts.entails(ne(e.old, ZERO))):
                    continue        # changes nothing
                if any(x.n > e.n for x in rs) and not e.loops:
                    # the start of a constructor
                    cx.ob(p.facts.entails(eq(v, ZERO)) and s.endswith('::Transaction'), s, 'a new transaction has no writes', e.where(), p)
                    continue
                if p.facts.entails(eq(v, ZERO)):
                    cx.ob(is_empty(p.final(thisloc(REQS))), s, 'writes are forgotten only with the requests', e.where(), p)
                    continue
                cx.ob(cls(cx, e.facts, 'WRITE', p, [x for x in rs if x.n < e.n][-1]), s, 'marked as a write only for a write', e.where(), p)
            end = p.facts
            if any(e.loops for e in rs):
                end = [e.facts for e in p.events if e.kind == 'loop' and e.info == 'iterend' and e.val[1] in rs[0].loops]
                end = end[-1] if end else None
            if end is None or is_empty(p.final(thisloc(REQS))) or p.val is not None and p.facts.entails(eq(p.val, ZERO)):
                continue
            set_ = any(not p.facts.entails(eq(e.val, ZERO)) and e.n > rs[-1].n for e in ws)
            ro, wr = cls(cx, end, 'READ', p, rs[-1]), cls(cx, end, 'WRITE', p, rs[-1])
            cx.ob(ro or wr, s, 'only reads and writes become part of a transaction', None, p)
            cx.ob(not wr or set_, s, 'a write marks the transaction', None, p)
    cx.ob(adders > 3, 'Transaction', 'requests can be added')


def cls(cx, F, kind, p, add_):
    """the request appended by add_ is of this class"""
    for l in F.all():
        if l[0] != 'eq':
            continue
        ts = [t for t, c in l[1]]
        if ('e', CT + kind) not in ts:
            continue
        for x in ts:
            if x[:1] == ('.',) and x[2] == RR + 'commandType' and added(x[1], F, p, add_):
                return True
            if x[:1] in (('init',), ('hav',)) and x[-1][0] == 'f' and x[-1][2] == RR + 'commandType':
                l = x[-1][1]
                if l[0] == 'ix' and l[1] == thisloc(REQS) and counter(p, add_, l[2]) or l[0] == 'd' and ('init', l) in add_.args or ('init', l) in add_.args:
                    return True
    return False


def added(v, F, p, e):
    if v in e.args:
        return True
    if is_call(v, '[]'):
        after = ('mut', e.name, e.obj, tuple(e.args))
        return v[2][:1] == ('mut',) and v[2][2:] == after[2:] and F.eqv(v[3], size(e.obj))
    return is_call(v, 'back')


def counter(p, e, ix):
    """ix counts the turns of the loop around e from zero"""
    for lid in e.loops:
        for x in loop_events(p, lid):
            if x.info == 'begin' and any(b == ix and is_zero(a) for v, a, b in x.args or ()):
                return True
    return False


TXW = ('TX_READONLY', 'TX_READWRITE')
STAMPED = ('TIMESTAMPED_LEASE_GET', 'TIMESTAMPED_LEASE_ACQUIRE', 'TIMESTAMPED_LEASE_RELEASE')


def cmd_of(req):
    return Engine.project(req, RR + 'command')


def cmd_eq(req, *names):
    return [eq(cmd_of(req), ('e', RC + n)) for n in names]


def word(req, i):
    return ('call', '[]', Engine.project(req, RR + 'contents'), C(i))


def none_of(F, ts):
    return all(F.refutes(t) for t in ts)


def one_of(F, ts):
    """the facts leave only these possibilities"""
    g = [F]
    for t in ts:
        g = [y for x in g for y in x.with_(tneg(t)) if consistent(y)]
    return not g


@rule('C06', 'forms', 'a transaction travels as its kind of command, its contents and whether it was asked for, and is taken back from them')
def c06_forms(cx):
    R, ph = this(REQS), this(PHAN)
    s = 'Transaction::toRedisRequest'
    n = 0
    f = cx.fn(T + 'toRedisRequest')
    for p in cx.paths(f, opaque=OPQ, pure=SUB + ('~Transaction::serialize$',)):
        if p.outcome != 'return':
            continue
        if p.val == ('call', '[]', R, ZERO) or is_call(p.val, 'front', 'back') and p.val[2] == R:
            cx.ob(p.facts.entails(ne(ph, ZERO)) and p.facts.entails(eq(size(R), C(1))), s, 'a single request travels as itself only if nobody asked for a transaction', None, p)
            continue
        n += 1
        ms, base = muts(Engine.project(p.val, RR + 'contents'))
        ws = [a[0] for m, a in ms]
        cx.ob(len(ws) == 3, s, 'three words', None, p)
        if len(ws) != 3:
            continue
        for k, t in (('TX_READWRITE', ne(this(HASW), ZERO)), ('TX_READONLY', eq(this(HASW), ZERO))):
            if ws[0] == ('s', k):
                cx.ob(p.facts.entails(t), s, k, None, p)
        cx.ob(ws[0] in (('s', 'TX_READWRITE'), ('s', 'TX_READONLY')), s, 'the command tells whether there are writes', None, p)
        cx.ob(is_call(ws[1], '~Transaction::serialize$'), s, 'then the serialized requests', None, p)
        for k, t in (('phantom', ne(ph, ZERO)), ('real', eq(ph, ZERO))):
            if ws[2] == ('s', k):
                cx.ob(p.facts.entails(t), s, k, None, p)
        cx.ob(ws[2] in (('s', 'phantom'), ('s', 'real')), s, 'then whether it is a real transaction', None, p)
    cx.ob(n, s, 'builds requests')
    for name, inner, np in (('fromRedisRequest', '~Transaction::deserialize$', lambda f: True), ('deserialize', '~Transaction::deserialize(Contents)?$', lambda f: 'RedisRequest' in f['key'])):
        f = cx.fn(T + name, 1, np)
        s = 'Transaction::%s(RedisRequest)' % name
        req = P(f, 0)
        n = 0
        ps = [p for p in cx.paths(f, opaque=OPQ + ('~Transaction::deserialize(Contents)?$',)) if p.outcome == 'return']
        for p, r, F in (bool_cases(ps) if name == 'deserialize' else [(p, True, p.facts) for p in ps]):
            if not r:
                d = p.calls(inner)
                if d and not F.entails(eq(d[-1].ret, ZERO)):
                    cx.ob(is_empty(p.final(thisloc(REQS))) and F.entails(eq(p.final(thisloc(HASW)), ZERO)), s, 'a refused transaction leaves nothing behind', None, p)
                continue
            n += 1
            cx.ob(one_of(F, cmd_eq(req, *TXW)), s, 'only transactions are taken', None, p)
            cx.ob(F.entails(eq(size(Engine.project(req, RR + 'contents')), C(3))), s, 'of three words', None, p)
            d = p.calls(inner)
            cx.ob(len(d) == 1 and d[0].args[0] == word(req, 1) or len(d) == 1 and word(req, 1) in subterms(d[0].args[0]), s, 'the requests are in the second word', None, p)
            cx.ob(len(d) == 1 and F.entails(ne(d[0].ret, ZERO)), s, 'taken only if the requests could be read', None, p)
            v = p.final(thisloc(PHAN))
            w2 = word(req, 2)
            yes, no = eq(w2, ('s', 'phantom')), eq(w2, ('s', 'real'))
            cx.ob(one_of(F, [yes, no]), s, 'the third word is phantom or real', None, p)
            for t, val in ((yes, ne(v, ZERO)), (no, eq(v, ZERO))):
                for g in F.with_(t):
                    cx.ob(g.entails(val), s, 'the third word tells whether it is a real transaction', None, p)
            if name == 'deserialize' and len(d) == 1:
                hw = ('hav', d[0].n, thisloc(HASW))
                for k, t in zip(TXW, (eq(hw, ZERO), ne(hw, ZERO))):
                    for g in F.with_(cmd_eq(req, k)[0]):
                        cx.ob(not consistent(g) or g.entails(t) or any(same_flag(l, hw, cmd_of(req), g, k == TXW[1]) for l in g.all()), s, 'the kind of command agrees with the contents', None, p)
        cx.ob(n, s, 'takes transactions')
        for p in cx.paths(f, opaque=OPQ + ('~Transaction::deserialize(Contents)?$',)):
            d = p.calls(inner)
            if p.outcome == 'throw' and d and p.facts.entails(ne(d[0].ret, ZERO)):
                cx.ob(none_of(p.facts, [eq(word(req, 2), ('s', k)) for k in ('phantom', 'real')]), s, 'takes both kinds', None, p)
    s = 'Transaction::expectedResponses'
    for p in cx.paths(cx.fn(T + 'expectedResponses')):
        for t, v in ((ne(ph, ZERO), size(R)), (eq(ph, ZERO), C(1))):
            for g in p.facts.with_(t):
                cx.ob(g.eqv(p.val, v), s, 'one reply for a real transaction, one per request otherwise', None, p)
    s = 'Transaction::clear'
    for p in cx.paths(cx.fn(T + 'clear')):
        cx.ob(is_empty(p.final(thisloc(REQS))) and all(p.facts.entails(eq(p.final(thisloc(x)), ZERO)) for x in (HASW, PHAN)), s, 'forgets everything', None, p)
    for name, want in (('size', size(R)), ('isPhantom', ph), ('containsWrites', this(HASW)), ('empty', None)):
        for p in cx.paths(cx.fn(T + name, 0)):
            if want is None:
                cx.ob(all(F.entails(eq(size(R), ZERO)) if r else F.entails(gt(size(R), ZERO)) or F.entails(ne(size(R), ZERO)) for _, r, F in bool_cases([p])), 'Transaction::' + name, 'tells what it says', None, p)
            else:
                cx.ob(p.facts.eqv(p.val, want), 'Transaction::' + name, 'tells what it says', None, p)
    s = 'PinnedBuffer::substr'
    f = cx.fn('quarkdb::PinnedBuffer::substr')
    PB = 'quarkdb::PinnedBuffer::'
    n = 0
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        n += 1
        rp = Engine.project(p.val, PB + 'regionPtr')
        ln = Engine.project(p.val, PB + 'regionSize')
        if p.facts.eqv(ln, P(f, 1)) and rp == add(this(PB + 'regionPtr'), P(f, 0)) and p.facts.entails(ne(this(PB + 'region'), ZERO)):
            cx.ob(Engine.project(p.val, PB + 'region') == this(PB + 'region'), s, 'the piece keeps the memory alive', None, p)
            continue
        cp = p.calls('~^(std::)?(memcpy|memmove)$')
        own = add(('call', 'data', this(PB + 'internalBuffer')), P(f, 0))
        cx.ob(len(cp) == 1 and cp[0].args[1] == own and cp[0].args[2] == P(f, 1) or any(is_call(x, '~(string|substr)$') and P(f, 0) in x and P(f, 1) in x for x in subterms(p.val)), s, 'a copied piece is the bytes asked for', None, p)
    cx.ob(n > 1, s, 'gives pieces')


def same_flag(l, hw, cmd, g, want):
    """l says that hw is the value of a comparison with cmd, which is want"""
    if l[0] != 'eq' or l[2] != 0 or len(l[1]) != 2 or {c for t, c in l[1]} != {1, -1}:
        return False
    ts = [t for t, c in l[1]]
    if hw not in ts:
        return False
    t = ts[1 - ts.index(hw)]
    return contains(t, cmd) and decide(g, t) == C(1 if want else 0)


def contains(l, t):
    return any(x == t for x in subterms(l))


@rule('C07', 'filter', 'the internal time-stamped commands become invalid requests, all others stay as they are')
def c07_filter(cx):
    f = cx.fn('quarkdb::InternalFilter::process')
    req = P(f, 0)
    s = f['name']
    L = ('d', ('p', 'req', 0))
    n = m = 0
    for p in cx.paths(f):
        if p.outcome != 'return':
            cx.ob(False, s, 'never fails', None, p)
            continue
        ws = {last_field(e.loc): e.val for e in p.events if e.kind == 'write'}
        out = cmd_eq(req, *STAMPED)
        if not ws:
            m += 1
            cx.ob(none_of(p.facts, out), s, 'lets no internal command through', None, p)
        else:
            n += 1
            cx.ob(one_of(p.facts, out), s, 'alters nothing else', None, p)
            cx.ob(ws.get(RR + 'command') == ('e', RC + 'INVALID') and ws.get(RR + 'commandType') == ('e', CT + 'INVALID') and set(ws) <= {RR + 'command', RR + 'commandType', RR + 'contents'}, s, 'makes the request invalid', None, p)
    cx.ob(n and m, s, 'filters')
    f = cx.fn('quarkdb::InternalFilter::isPermitted')
    s = f['name']
    tx = Engine.project(P(f, 0), REQS)
    y = nn = 0
    bad = STAMPED + TXW
    for p, r, F in bool_cases(cx.paths(f)):
        if r:
            y += 1
            if zero_loops(p):
                cx.ob(F.entails(le(size(tx), ZERO)), s, 'looks at all requests', None, p)
                continue
            its = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
            cx.ob(len(its) == 1, s, 'looks at each request', None, p)
            if len(its) == 1:
                c = commands_in(its[0].facts)
                c = [x for x in c if visits(p, [its[0].val[1]], x, lambda k: k == tx)]
                cx.ob(len(c) >= 1 and none_of(its[0].facts, [eq(c[0], ('e', RC + b)) for b in bad]), s, 'permits no internal command', None, p)
        else:
            nn += 1
            c = commands_in(F)
            cx.ob(any(one_of(F, [eq(x, ('e', RC + b)) for b in bad]) for x in c), s, 'refuses nothing else', None, p)
    cx.ob(y and nn, s, 'permits and refuses')


def commands_in(F):
    out = []
    for l in F.all():
        for x in subterms(l):
            if (x[:1] == ('.',) and x[2] == RR + 'command' or x[:1] in (('init',), ('hav',)) and last_field(x[-1]) == RR + 'command') and x not in out:
                out.append(x)
    return out


CN = 'quarkdb::Connection::'
MH = 'quarkdb::MultiHandler::'
CUR = CN + 'currentRequest'
OPQC = ('~FlushGuard::', '~MultiHandler::(process|finalizePhantomTransaction)$', '~Dispatcher::dispatch$', '~Connection::err$', '~RedisParser::', '~Transaction::deserialize$', '~InternalFilter::', '~Transaction::~Transaction', '~toPrintableString$')


def handled(p):
    """for each request fetched on p: (fetch event, filter events, events that handle it, finalizations, events after)"""
    out = []
    fs = p.calls('~RedisParser::fetch$')
    for i, e in enumerate(fs):
        end = fs[i + 1].n if i + 1 < len(fs) else None
        out.append((e, [x for x in p.calls('~') if x.n > e.n and (end is None or x.n < end)]))
    return out


def is_cur(e, i):
    return i < len(e.arglocs) and e.arglocs[i] == thisloc(CUR)


@rule('C07', 'clients', 'what a client sends passes the filter before anything is done with it')
def c07_clients(cx):
    f = cx.fn(CN + 'processRequests')
    s = f['name']
    fetchers = {g['name'] for g, _ in callers(cx, 'quarkdb::RedisParser::fetch')}
    cx.ob(fetchers == {CN + 'processRequests'}, s, 'requests enter only here: ' + ', '.join(sorted(fetchers)), f['file'])
    n = t = 0
    for p in cx.paths(f, opaque=OPQC):
        for fe, es in handled(p):
            use = [e for e in es if any(is_cur(e, i) for i in range(len(e.args))) and not match(e.name, ('~InternalFilter::process$', '~RedisRequest::get', '~RedisRequest::size$'))]
            fl = [e for e in es if e.name.endswith('InternalFilter::process') and is_cur(e, 0)]
            for e in use:
                n += 1
                cx.ob(any(x.n < e.n for x in fl), s, 'the filter comes first', e.where(), p)
            for e in es:
                if not match(e.name, ('~Dispatcher::dispatch$', '~MultiHandler::process$')):
                    continue
                i = 1 if e.name.endswith('dispatch') else 2
                if is_cur(e, i):
                    cmds = [('hav', x.n, ('f', thisloc(CUR), RR + 'command')) for x in fl]
                    cmds += [Engine.project(('out', x.n, x.name, 0, ()), RR + 'command') for x in fl]
                    cx.ob(any(none_of(e.facts, [eq(c, ('e', RC + k)) for k in TXW]) for c in cmds), s, 'a serialized transaction is not taken as it is', e.where(), p)
                elif e.name.endswith('::dispatch'):
                    t += 1
                    d = [x for x in es if x.name.endswith('Transaction::deserialize') and x.objloc == e.arglocs[1] and is_cur(x, 0) and x.n < e.n]
                    ok_ = [x for x in es if x.name.endswith('InternalFilter::isPermitted') and x.arglocs[0] == e.arglocs[1] and x.n < e.n]
                    cx.ob(len(d) == 1 and e.facts.entails(ne(d[0].ret, ZERO)), s, 'a serialized transaction must be readable', e.where(), p)
                    cx.ob(len(ok_) == 1 and e.facts.entails(ne(ok_[0].ret, ZERO)) and d and ok_[0].n > d[0].n, s, 'and contain nothing internal', e.where(), p)
                    phs = [x for l in e.facts.all() for x in subterms(l) if x[:1] in (('hav',), ('init',), ('.',)) and (x[-1] == PHAN or last_field(x[-1]) == PHAN)]
                    cx.ob(any(e.facts.entails(eq(x, ZERO)) for x in phs), s, 'and be a real one', e.where(), p)
    cx.ob(n and t, s, 'handles requests and transactions', f['file'])


@rule('C08', 'stamp', 'lease commands become their time-stamped form with the same arguments and the given time, nothing else changes')
def c08_stamp(cx):
    LF = 'quarkdb::LeaseFilter::transform'
    f = cx.fn(LF, 2, lambda f: 'RedisRequest' in f['key'])
    req, ts = P(f, 0), P(f, 1)
    s = f['name']
    seen = set()
    int_codec(cx)
    for p in cx.paths(f):
        if p.outcome != 'return':
            cx.ob(none_of(p.facts, cmd_eq(req, *[k[12:] for k in STAMPED])), s, 'accepts lease commands', None, p)
            continue
        for k in STAMPED:
            if not possible(p.facts, cmd_eq(req, k[12:])[0]):
                continue
            seen.add(k)
        k = [x for x in STAMPED if possible(p.facts, cmd_eq(req, x[12:])[0])]
        cx.ob(len(k) == 1 and p.facts.entails(cmd_eq(req, k[0][12:])[0]), s, 'one form per command', None, p)
        if len(k) != 1:
            continue
        cont = [e for e in p.events if e.kind == 'write' and RR + 'contents' in loc_fields(e.loc)]
        first = [e for e in cont if e.loc[0] == 'ix']
        whole = [e for e in cont if e.loc[0] != 'ix']
        cx.ob(len(first) == 1 and first[0].loc[2] == ZERO and ('s', k[0]) in list(subterms(first[0].val)), s, 'the command is replaced', None, p)
        st = ('call', 'quarkdb::unsignedIntToBinaryString', ts)
        cx.ob(len(whole) == 1 and muts(whole[0].val)[0][-1:] and muts(whole[0].val)[0][-1][1] == (st,) and len(muts(whole[0].val)[0]) == 1, s, 'the time is appended, once', None, p)
        pc = p.calls('~RedisRequest::parseCommand$')
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) in (RR + 'command', RR + 'commandType')]
        cx.ob(w and first and max(e.n for e in w) > first[0].n and (not pc or True), s, 'the command is looked up again', None, p)
    cx.ob(seen == set(STAMPED), s, 'all lease commands have a time-stamped form')
    f = cx.fn(LF, 2, lambda f: 'Transaction' in f['key'])
    s = f['name'] + '(Transaction)'
    tx = Engine.project(P(f, 0), REQS)
    n = 0
    for p in cx.paths(f, opaque=(LF,)):
        if p.outcome != 'return':
            continue
        es = p.calls(LF)
        its = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
        if not its:
            cx.ob(p.facts.entails(le(size(tx), ZERO)) and not es, s, 'looks at all requests', None, p)
            continue
        cs = [x for x in commands_in(its[0].facts) if visits(p, [its[0].val[1]], x, in_reqs) or visits_changing(p, its[0].val[1], x)]
        cx.ob(bool(cs), s, 'looks at every request, from the first to the last', None, p)
        if not cs:
            continue
        ts_ = [eq(cs[0], ('e', RC + k[12:])) for k in STAMPED]
        if es:
            n += 1
            cx.ob(len(es) == 1 and es[0].args[1] == P(f, 1), s, 'each is stamped once, with the given time', None, p)
            cx.ob(one_of(es[0].facts, ts_), s, 'only lease commands are stamped', None, p)
            l = es[0].arglocs[0]
            cx.ob(l is not None and l[0] == 'ix' and counter(p, es[0], l[2]) or visits(p, es[0].loops, es[0].args[0], lambda k: True), s, 'the request looked at is stamped', None, p)
        else:
            cx.ob(none_of(its[0].facts, ts_), s, 'every lease command is stamped', None, p)
    cx.ob(n, s, 'stamps')


def in_reqs(k):
    return k[:1] in (('hav',), ('init',)) and last_field(k[-1]) == REQS or k[:1] == ('.',) and k[2] == REQS


@rule('C08', 'before', 'writes are stamped with the clock of the store before they are replicated or applied')
def c08_before(cx):
    n = 0
    for f, i, what in ((cx.fn('quarkdb::RaftDispatcher::service'), 1, ('~RaftWriteTracker::append$',)), (cx.fn('quarkdb::StandaloneDispatcher::dispatch', 2, lambda f: 'Transaction' in f['key']), 1, ('~RedisDispatcher::dispatch$',))):
        s = f['name']
        for p in cx.paths(f, opaque=('~LeaseFilter::', '~RaftWriteTracker::', '~RedisDispatcher::', '~StateMachine::', '~RaftState::', '~RaftJournal::', '~Connection::', '~RaftDispatcher::service$', '~RaftMembership', '~toPrintableString', '~RaftLease', '~Transaction::~')):
            st = p.calls('~LeaseFilter::transform$')
            for e in p.calls(*what):
                n += 1
                ok_ = [x for x in st if x.n < e.n and x.arglocs[0] is not None]
                cx.ob(len(ok_) == 1, s, 'stamped once before', e.where(), p)
                if len(ok_) == 1:
                    cx.ob(ok_[0].arglocs[0] in (('d', P(f, i)), ('var', f['params'][i]['id'], 0)) , s, 'the transaction itself is stamped', e.where(), p)
                    cx.ob(is_ret(ok_[0].args[1], '~StateMachine::getDynamicClock$'), s, 'with the clock of the store', e.where(), p)
    cx.ob(n > 1, 'LeaseFilter::transform', 'is used by both servers')
    m = {g['name'] for g, _ in callers(cx, 'quarkdb::LeaseFilter::transform')} - {'quarkdb::LeaseFilter::transform'}
    cx.ob(m == {'quarkdb::RaftDispatcher::service', 'quarkdb::StandaloneDispatcher::dispatch'}, 'LeaseFilter::transform', 'nobody else stamps: ' + ', '.join(sorted(m)), 'redis/LeaseFilter.cc')
    # where writes enter the replicated log
    w = {g['name'] for g, _ in callers(cx, 'quarkdb::RaftWriteTracker::append')}
    cx.ob(w <= {'quarkdb::RaftDispatcher::service', 'quarkdb::RaftWriteTracker::append'}, 'RaftWriteTracker::append', 'client writes enter only after stamping: ' + ', '.join(sorted(w)), 'raft/RaftWriteTracker.cc')


def visits_changing(p, lid, v):
    """v is (a member of) the element at the counter of loop lid, whose container the loop changes in place"""
    el, _ = peel(v)
    if not is_call(el, '[]') or el[2][:1] != ('.',):
        return False
    base, fld, ix = el[2][1], el[2][2], el[3]
    evs = loop_events(p, lid)
    var = cnt = None
    for e in evs:
        if e.info == 'begin':
            for x, a, b in e.args or ():
                if b == base:
                    var = x
                if b == ix and is_zero(a):
                    cnt = x
    if var is None or cnt is None or any(e.info == 'break' for e in evs):
        return False
    for e in evs:
        d = {x: (a, b) for x, a, b in e.args or ()}
        if e.info == 'iterend' and not (stepped(*d[cnt]) and e.facts.entails(lt(ix, size(Engine.project(base, fld))))):
            return False
        if e.info == 'exit' and not e.facts.entails(ge(d[cnt][1], size(Engine.project(d[var][1], fld)))):
            return False
    return True


ACT, TXF = MH + 'activated', MH + 'transaction'
TREQ, TPH = ('f', thisloc(TXF), REQS), ('f', thisloc(TXF), PHAN)
REPLIES = ('~Connection::(ok|err|errArgs|vector|status|string|integer|null|raw|noauth|pong|statusVector)$',)


def tval(loc):
    return ('init', loc)


@rule('C05', 'queue', 'between MULTI and EXEC commands are queued, EXEC runs the queue once and empties it, DISCARD drops it')
def c05_queue(cx):
    f = cx.fn(MH + 'process')
    s = f['name']
    req = P(f, 2)
    ct = Engine.project(req, RR + 'commandType')
    seen = dict.fromkeys(('DISCARD', 'MULTI', 'MULTIERR', 'EXEC', 'EMPTY', 'QUEUE', 'REFUSE'), 0)
    act, reqs, ph = tval(thisloc(ACT)), tval(TREQ), tval(TPH)
    for p in cx.paths(f, opaque=REPLIES + ('~Dispatcher::dispatch$', '~PendingQueue::')):
        F = p.facts
        if p.outcome == 'throw':
            cx.ob(True, s, 'stops on an assertion', None, p)
            continue
        k = [c for c in ('DISCARD', 'MULTI', 'EXEC') if F.entails(cmd_eq(req, c)[0])]
        d = p.calls('~Dispatcher::dispatch$')
        rp = p.calls(*REPLIES)
        a1, r1, p1 = p.final(thisloc(ACT)), p.final(TREQ), p.final(TPH)
        same = a1 == act and r1 == reqs and p1 == ph
        if not k:
            cx.ob(none_of(F, cmd_eq(req, 'DISCARD', 'MULTI', 'EXEC')), s, 'knows which command it is', None, p)
            push = [e for e in p.calls('~vector::(push_back|emplace_back)$') if e.objloc == TREQ]
            rw = one_of(F, [eq(ct, ('e', CT + x)) for x in ('READ', 'WRITE')]) or cls_any(F, push, req)
            cx.ob(not d, s, 'nothing runs before EXEC', None, p)
            if push:
                seen['QUEUE'] += 1
                cx.ob(len(push) == 1 and push[0].args[0] == req and r1 == ('mut', push[0].name, reqs, (req,)), s, 'each accepted command is queued once, last', None, p)
                cx.ob(rw, s, 'only reads and writes are queued', None, p)
                cx.ob(a1 == act and p1 == ph, s, 'queueing changes nothing else', None, p)
                real = [e for e in rp if e.name.endswith('::status') and e.args[0] == ('s', 'QUEUED')]
                cx.ob(len(rp) <= 1 and (F.entails(eq(ph, ZERO)) and len(real) == 1 and p.val == real[0].ret or F.entails(ne(ph, ZERO)) and not rp), s, 'a queued command is acknowledged, if the client asked for a transaction', None, p)
            else:
                seen['REFUSE'] += 1
                cx.ob(none_of(F, [eq(ct, ('e', CT + x)) for x in ('READ', 'WRITE')]), s, 'reads and writes are queued', None, p)
                cx.ob(same and len(rp) == 1 and rp[0].name.endswith('::err') and p.val == rp[0].ret, s, 'others are refused, with no other effect', None, p)
            continue
        k = k[0]
        if k == 'MULTI':
            cx.ob(not d, s, 'MULTI runs nothing', None, p)
            if rp and rp[0].name.endswith('::ok'):
                seen['MULTI'] += 1
                cx.ob(F.entails(eq(act, ZERO)), s, 'transactions are not nested', None, p)
                cx.ob(F.entails(ne(a1, ZERO)) and F.entails(eq(p1, ZERO)) and r1 == reqs, s, 'MULTI starts a real transaction', None, p)
                cx.ob(F.entails(eq(size(Engine.project(req, RR + 'contents')), C(1))), s, 'MULTI has no arguments', None, p)
            else:
                seen['MULTIERR'] += 1
                cx.ob(same and len(rp) == 1, s, 'a refused MULTI changes nothing', None, p)
                cx.ob(F.entails(ne(act, ZERO)) or F.entails(ne(size(Engine.project(req, RR + 'contents')), C(1))), s, 'MULTI is refused only if nested or malformed', None, p)
        elif k == 'DISCARD':
            seen['DISCARD'] += 1
            cx.ob(not d and is_empty(r1) and F.entails(eq(a1, ZERO)), s, 'DISCARD drops the queue and ends the transaction', None, p)
            cx.ob(len(rp) == 1 and rp[0].name.endswith('::ok'), s, 'DISCARD is acknowledged', None, p)
        else:
            cx.ob(F.entails(eq(a1, ZERO)), s, 'EXEC ends the transaction', None, p)
            if d:
                seen['EXEC'] += 1
                cx.ob(len(d) == 1 and d[0].arglocs[1] == thisloc(TXF) and not [e for e in p.events if e.kind == 'write' and e.loc[:2] == TREQ[:2] and e.n < d[0].n], s, 'EXEC runs the queue once, as it is', None, p)
                cx.ob(p.val == d[0].ret and not rp, s, 'the reply is that of the run', None, p)
                cx.ob(is_empty(r1), s, 'EXEC empties the queue', None, p)
            else:
                seen['EMPTY'] += 1
                cx.ob(F.entails(eq(size(reqs), ZERO)) or F.entails(le(size(reqs), ZERO)), s, 'EXEC runs the queue, unless there is nothing in it', None, p)
                cx.ob(len(rp) == 1 and rp[0].name.endswith('::vector') and r1 == reqs, s, 'an empty transaction answers an empty list', None, p)
    for k, n in seen.items():
        cx.ob(n, s, k)
    f = cx.fn(MH + 'finalizePhantomTransaction')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~MultiHandler::process$',)):
        if p.outcome != 'return':
            continue
        run = p.calls('~MultiHandler::process$')
        go = [ne(act, ZERO), ne(ph, ZERO), ne(size(reqs), ZERO)]
        if run:
            n += 1
            w = run[0].args[2]
            ms, base = muts(Engine.project(w, RR + 'contents'))
            cx.ob(len(run) == 1 and run[0].args[:2] == (P(f, 0), P(f, 1)) and ('s', 'EXEC') in list(subterms(w)), s, 'runs the queue', None, p)
            cx.ob(all(p.facts.entails(g) for g in go[:2]), s, 'only a transaction nobody asked for is finalized', None, p)
        else:
            cx.ob(one_of(p.facts, [tneg(g) for g in go]), s, 'a waiting queue is run', None, p)
    cx.ob(n, s, 'runs')
    f = cx.fn(MH + 'activatePhantom')
    for p in cx.paths(f):
        if p.outcome == 'return':
            cx.ob(p.facts.entails(ne(p.final(thisloc(ACT)), ZERO)) and p.facts.entails(ne(p.final(TPH), ZERO)) and p.final(TREQ) == reqs, f['name'], 'batches writes without forgetting any', None, p)
    for name, want in (('active', act), ('size', size(reqs))):
        for p in cx.paths(cx.fn(MH + name)):
            cx.ob(p.facts.eqv(p.val, want), MH + name, 'tells what it says', None, p)
    for p, r, F in bool_cases(cx.paths(cx.fn(MH + 'isPhantom'))):
        cx.ob(F.entails(ne(act, ZERO)) and F.entails(ne(ph, ZERO)) if r else one_of(F, [eq(act, ZERO), eq(ph, ZERO)]), MH + 'isPhantom', 'tells what it says', None, p)
    # nobody else touches the queue
    for fld in (TXF, ACT):
        w = {g['name'] for g in writers(cx, fld)}
        cx.ob(w <= {MH + x for x in ('process', 'activatePhantom', 'MultiHandler')}, fld, 'changes only here: ' + ', '.join(sorted(w)), 'redis/MultiHandler.cc')


def cls_any(F, push, req):
    """the facts say the queued request is a read or a write"""
    g = [F]
    for e in push:
        for x in commandtypes(F):
            if one_of(F, [eq(x, ('e', CT + k)) for k in ('READ', 'WRITE')]):
                return True
    return False


def commandtypes(F):
    out = []
    for l in F.all():
        for x in subterms(l):
            if (x[:1] == ('.',) and x[2] == RR + 'commandType' or x[:1] in (('init',), ('hav',)) and last_field(x[-1]) == RR + 'commandType') and x not in out:
                out.append(x)
    return out


@rule('C05', 'requests', 'each request of a client is handled exactly once, after the writes that wait before it')
def c05_requests(cx):
    f = cx.fn(CN + 'processRequests')
    s = f['name']
    seen = dict(run=0, queue=0, err=0, tx=0)
    for p in cx.paths(f, opaque=OPQC):
        if p.outcome == 'throw':
            continue
        hs = handled(p)
        for fe, es in hs:
            acts = [e for e in es if match(e.name, ('~Dispatcher::dispatch$', '~MultiHandler::process$', '~Connection::err$'))]
            fin = [e for e in es if e.name.endswith('finalizePhantomTransaction')]
            F = p.facts
            pos = [e for e in p.events if e.n > fe.n]
            Fs = acts[0].facts if acts else F
            if F.entails(le(fe.ret, ZERO)):
                cx.ob(not acts, s, 'nothing is done without a request', fe.where(), p)
                cx.ob(F.entails(lt(fe.ret, ZERO)) or len(fin) >= 1, s, 'waiting writes run when the client pauses', fe.where(), p)
                cx.ob(p.outcome == 'return', s, 'waits for the client', fe.where(), p)
                continue
            cx.ob(len(acts) == 1, s, 'each request is handled exactly once', fe.where(), p)
            if len(acts) != 1:
                continue
            e = acts[0]
            cx.ob(e.facts.entails(gt(fe.ret, ZERO)), s, 'only complete requests are handled', e.where(), p)
            inactive = any(l[0] == 'eq' and len(l[1]) == 1 and last_field(l[1][0][0][-1]) == ACT and l[2] == 0 for l in e.facts.all() if l[0] == 'eq' and isinstance(l[1][0][0], tuple) and l[1][0][0][:1] in (('hav',), ('init',)))
            waited = bool([x for x in fin if x.n < e.n]) or inactive
            cmdt = [x for x in commandtypes(e.facts)]
            cmds = commands_in(e.facts)
            is_ = lambda k: any(e.facts.entails(eq(c, ('e', RC + k))) for c in cmds)
            if e.name.endswith('::err'):
                seen['err'] += 1
                cx.ob(waited, s, 'errors come after the replies to earlier requests', e.where(), p)
                cx.ob(is_('EXEC') or is_('DISCARD') or is_('TX_READWRITE') or is_('TX_READONLY') or any(x.name.endswith('deserialize') for x in es), s, 'only stray transaction commands are refused here', e.where(), p)
            elif e.name.endswith('MultiHandler::process'):
                seen['queue'] += 1
                cx.ob(is_cur(e, 2), s, 'the request is queued', e.where(), p)
                if is_('MULTI'):
                    cx.ob(waited, s, 'a transaction starts after the waiting writes', e.where(), p)
                    continue
                wr = any(e.facts.entails(eq(c, ('e', CT + 'WRITE'))) for c in cmdt)
                batch = [x for x in p.events if x.kind == 'call' and x.name.endswith('activatePhantom') and fe.n < x.n < e.n]
                real = [l for l in e.facts.all() if l[0] == 'eq' and l[2] == 0 and len(l[1]) == 1 and isinstance(l[1][0][0], tuple) and l[1][0][0][:1] in (('hav',), ('init',)) and last_field(l[1][0][0][-1]) == PHAN]
                on = [l for l in e.facts.all() if l[0] == 'ne' and l[2] == 0 and len(l[1]) == 1 and isinstance(l[1][0][0], tuple) and l[1][0][0][:1] in (('hav',), ('init',)) and last_field(l[1][0][0][-1]) == ACT]
                cx.ob(wr or real and on, s, 'only writes are batched when nobody asked for a transaction', e.where(), p)
                cx.ob(bool(on) or batch, s, 'queued only while a queue is open', e.where(), p)
            elif is_cur(e, 1):
                seen['run'] += 1
                cx.ob(waited, s, 'runs after the waiting writes', e.where(), p)
                cx.ob(any(e.facts.refutes(eq(c, ('e', CT + 'WRITE'))) for c in cmdt), s, 'single writes are batched', e.where(), p)
                batched = [l for l in e.facts.all() if l[0] == 'ne' and l[2] == 0 and len(l[1]) == 1 and isinstance(l[1][0][0], tuple) and l[1][0][0][:1] in (('hav',), ('init',)) and last_field(l[1][0][0][-1]) == PHAN]
                cx.ob(inactive or batched, s, 'nothing runs inside a transaction', e.where(), p)
                cx.ob(any(e.facts.refutes(eq(c, ('e', RC + 'MULTI'))) for c in cmds), s, 'MULTI starts a transaction', e.where(), p)
            else:
                seen['tx'] += 1
                cx.ob(waited and inactive, s, 'a serialized transaction runs after the waiting writes, outside any other', e.where(), p)
        if p.outcome == 'return' and not hs:
            mon = p.calls('~RedisParser::purge$')
            fin = p.calls('~finalizePhantomTransaction$')
            cx.ob(bool(fin) or bool(mon), s, 'waiting writes run when the server stops', None, p)
    for k, n in seen.items():
        cx.ob(n, s, k)
