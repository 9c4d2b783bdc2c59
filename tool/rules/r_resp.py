"""Replies on the wire: C09."""
from qdb.common import *

FM = 'quarkdb::Formatter::'
AB = 'quarkdb::ArrayResponseBuilder::'
RE = 'quarkdb::RedisEncodedResponse::'
CRLF = '\r\n'


class Bad(Exception):
    pass


def replaced(v, m):
    """v with the terms of m replaced"""
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    r = tuple(replaced(x, m) for x in v)
    return Engine.project(r[1], r[2]) if r[:1] == ('.',) and r != v else r


def turns(p, lid):
    """(how often the loop body ran as a term, [(element term, container)])"""
    evs = [e for e in p.events if e.kind == 'loop' and e.val[1] == lid]
    beg = [e for e in evs if e.info == 'begin']
    if not beg or any(e.info == 'break' for e in evs):
        raise Bad('a loop ends early')
    if beg[0].obj is not None and not isinstance(beg[0].obj, str):
        c = beg[0].obj
        return size(c), [(('elem', c, lid), c)]
    ends = [e for e in evs if e.info == 'iterend']
    exits = [e for e in evs if e.info == 'exit']
    same = {}
    for v, entry, cur in beg[0].args:
        if ends and all(b == cur for e in ends for v2, a, b in e.args if v2 == v):
            same[cur] = entry
            for e in exits:
                for v2, a, b in e.args:
                    if v2 == v:
                        same[b] = entry
    for v, entry, cur in beg[0].args:
        nxt = [b for e in ends for v2, a, b in e.args if v2 == v]
        last = [b for e in exits for v2, a, b in e.args if v2 == v]
        if is_call(entry, 'begin') and nxt and all(x == ('mut', 'operator++', cur, ()) for x in nxt):
            if all(e.facts.entails(eq(('call', 'end', entry[2]), b)) for e in exits for b in last):
                return size(entry[2]), [(('init', ('d', cur)), entry[2]), (('call', '*', cur), entry[2])]
        if entry == ZERO and nxt and all(x == add(cur, C(1)) for x in nxt) and last:
            cand = []
            for e in exits:
                for t in e.facts.all():
                    for x, k in t[1]:
                        if x not in last and x != cur and x not in cand:
                            cand.append(x)
            for t in cand:
                for u in [t] + [replaced(t, {b: a for a, b in ((a, b) for a in same for b in same if same[a] == same[b] and a != b)})] + [replaced(t, {b: a}) for a in same for b in same if same[a] == same[b]]:
                  if all(e.facts.entails(ge(b, t)) for e in exits for b in last) and all(e.facts.entails(lt(cur, u)) for e in ends):
                    t = replaced(t, same)
                    c = t[2] if is_call(t, 'size') else None
                    return t, [(('call', '[]', c, cur), c)] if c is not None else []
        if nxt and all(x == sub(cur, C(1)) for x in nxt) and last:
            # counts down to nothing
            if all(e.facts.entails(ge(cur, C(1))) or e.facts.entails(ne(cur, ZERO)) for e in ends):
                if all(e.facts.entails(le(b, ZERO)) for e in exits for b in last):
                    return entry, []
    raise Bad('how often a loop runs is not known')


def nothing(F, t):
    """a number of turns or elements that is zero"""
    if t == ZERO or F.entails(eq(t, ZERO)):
        return True
    ts = t[2] if t[0] == 'lin' and t[1] == 0 else ((t, 1),)
    return all(k > 0 and is_call(x, 'size') and (F.entails(le(x, ZERO)) or F.entails(eq(('call', 'begin', x[2]), ('call', 'end', x[2]))) or x[2][:1] == ('ctor',) and x[2][2] == ()) for x, k in ts)


class Parser:
    """reads the parts of a text as protocol messages"""

    def __init__(self, p, parts):
        self.p, self.F = p, p.facts
        self.toks = []
        for x in parts:
            if x[0] == 's':
                if self.toks and self.toks[-1][0] == 's':
                    self.toks[-1] = ('s', self.toks[-1][1] + x[1])
                else:
                    self.toks.append(x)
            elif x != ('s', ''):
                self.toks.append(x)

    def lit(self, t):
        if not self.toks or self.toks[0][0] != 's' or not self.toks[0][1].startswith(t):
            raise Bad('expected %r, found %s' % (t, str(self.toks[:1])[:80]))
        self.cut(len(t))

    def cut(self, n):
        r = self.toks[0][1][n:]
        self.toks = ([('s', r)] if r else []) + self.toks[1:]

    def number(self):
        t = self.toks[0] if self.toks else ('none',)
        if is_call(t, 'std::to_string'):
            self.toks.pop(0)
            self.lit(CRLF)
            return t[2]
        if t[0] == 's':
            i = t[1].find(CRLF)
            try:
                n = int(t[1][:i]) if i > 0 else None
            except ValueError:
                n = None
            if n is not None and i > 0:
                self.cut(i + 2)
                return C(n)
        raise Bad('no number: %s' % str(t)[:80])

    def line(self):
        out = []
        while self.toks:
            t = self.toks[0]
            if t[0] == 's':
                i = t[1].find(CRLF)
                if i >= 0:
                    if i:
                        out.append(('s', t[1][:i]))
                    self.cut(i + 2)
                    return tuple(out)
                if '\r' in t[1] or '\n' in t[1]:
                    raise Bad('line break inside a line')
            elif t[0] == 'rep':
                raise Bad('a line made in a loop')
            out.append(t)
            self.toks.pop(0)
        raise Bad('line is not terminated')

    def bulk(self):
        n = self.number()
        if n == C(-1):
            return ('null',)
        have, out = ZERO, []
        while True:
            rest = sub(n, have)
            if self.F.entails(eq(rest, ZERO)) and self.toks and self.toks[0][0] == 's' and self.toks[0][1].startswith(CRLF):
                self.cut(2)
                return ('bulk', tuple(out))
            if not self.toks:
                raise Bad('too few bytes: %s missing' % str(rest)[:80])
            t = self.toks[0]
            if t[0] == 's':
                if is_num(rest):
                    k = rest[1]
                    if k > len(t[1]):
                        k = len(t[1])
                else:
                    k = t[1].find(CRLF)
                    if k < 0:
                        k = len(t[1])
                if k <= 0:
                    raise Bad('announced length differs: %s' % str(rest)[:80])
                out.append(('s', t[1][:k]))
                have = add(have, C(k))
                self.cut(k)
            elif t[0] == 'rep':
                raise Bad('bytes from a loop')
            else:
                out.append(t)
                have = add(have, size(t))
                self.toks.pop(0)

    def items(self):
        """whole messages up to the end, with their number as a term"""
        out, n = [], ZERO
        while self.toks:
            if self.toks[0][0] == 'rep' and nothing(self.F, turns(self.p, self.toks[0][1])[0]):
                self.toks.pop(0)
                continue
            x, k = self.item()
            out.append(x)
            n = add(n, k)
        return out, n

    def item(self):
        t = self.toks[0]
        if t[0] == 'rep':
            self.toks.pop(0)
            sub_ = Parser(self.p, t[2])
            xs, k = sub_.items()
            tn, els = turns(self.p, t[1])
            if nothing(self.F, tn):
                tn = ZERO
            if not is_num(k):
                raise Bad('a changing number of elements in each turn')
            return ('rep', t[1], tuple(xs)), ('lin', 0, ((tn, k[1]),)) if k[1] != 1 and not is_num(tn) else (C(tn[1] * k[1]) if is_num(tn) else tn)
        return self.value(), C(1)

    def value(self):
        if not self.toks:
            raise Bad('a message is missing')
        t = self.toks[0]
        if t[0] != 's':
            if t[0] in ('.', 'init') and RE + 'val' in str(t):
                self.toks.pop(0)
                return ('whole', t)
            raise Bad('not a message: %s' % str(t)[:100])
        c = t[1][0]
        self.cut(1)
        if c == '+':
            return ('simple', self.line())
        if c == '-':
            return ('err', self.line())
        if c == ':':
            return ('int', self.number())
        if c == '$':
            return self.bulk()
        if c in '*>':
            n = self.number()
            out, k = [], ZERO
            while True:
                d = sub(n, k)
                if nothing(self.F, d) and not (self.toks and self.toks[0][0] == 'rep' and self.grows(n, k)):
                    return ('arr' if c == '*' else 'push', n, tuple(out))
                if not self.toks:
                    raise Bad('too few elements: %s missing' % str(d)[:80])
                x, m = self.item()
                out.append(x)
                k = add(k, m)
                if is_num(sub(n, k)) and sub(n, k)[1] < 0:
                    raise Bad('too many elements')
        raise Bad('not a message: %r' % c)

    def grows(self, n, k):
        """the loop that follows adds nothing to the number of elements"""
        tn, els = turns(self.p, self.toks[0][1])
        return nothing(self.F, tn)


def messages(p, v):
    ps = Parser(p, shape(p, v))
    return ps.items()


def reply_text(p, f):
    v = p.val
    if v is None or v == ('void',) or f['ret'] == 'void':
        return None
    t = Engine.project(v, RE + 'val')
    return t


@rule('C09', 'whole', 'every reply is one complete message')
def c09_whole(cx):
    n = 0
    for f in cx.p.methods('quarkdb::Formatter'):
        if 'RedisEncodedResponse' not in f['ret'] and not (f['params'] and 'ostringstream' in str(f['params'][0]) + f['key']):
            continue
        s = f['key'].replace('quarkdb::', '').split(')')[0] + ')'
        for p in cx.paths(f, opaque=OPQ.get(short(f), ()) + OPAQUE):
            cx.ob(p.outcome != 'loop', s, 'is finished some time', None, p)
            if p.outcome == 'throw' and short(f) == 'multiply':
                cx.ob(p.facts.entails(le(P(f, 1), ZERO)), s, 'repeats any number of times', None, p)
            if p.outcome != 'return':
                continue
            n += 1
            if 'RedisEncodedResponse' in f['ret']:
                v = Engine.project(p.val, RE + 'val')
                if is_ret(p.val) and p.val[2].startswith(FM):
                    continue
            else:
                v = p.final(('var', f['params'][0]['id'], 0))
                parts = shape(p, v)
                cx.ob(parts[:1] == [P(f, 0)] or parts[:1] == [('init', ('var', f['params'][0]['id'], 0))], s, 'adds to what is there', None, p)
                v = ('cat', tuple(parts[1:]))
            try:
                ms, k = messages(p, v)
            except Bad as ex:
                cx.ob(False, s, 'is a well-formed message: %s' % ex, None, p)
                continue
            if short(f) == 'multiply':
                cx.ob(len(ms) == 1 and ms[0][:1] == ('rep',) and ms[0][2] == (('whole', ('.', P(f, 0), RE + 'val')),) and p.facts.entails(eq(k, P(f, 1))), s, 'repeats the reply as often as asked', None, p)
                continue
            cx.ob(k == C(1) and len(ms) == 1, s, 'is exactly one message', None, p)
    cx.ob(n > 40, FM, 'replies are built')


def short(f):
    return f['name'].split('::')[-1]


OPAQUE = ('~quarkdb::Transaction::deserialize$', '~quotes$')
OPQ = {
    'raftEntries': (FM + 'raftEntry',), 'journalScan': (FM + 'raftEntry',), 'raftEntry': ('~Formatter::(simpleRedisRequest|redisRequest)$',),
    'redisRequest': ('~Formatter::simpleRedisRequest$',),
    'nodeHealth': ('~Formatter::statusVector$', '~healthIndicators', '~chooseWorst', '~NodeHealth::', '~healthStatusAsString'), 'stats': ('~Formatter::statusVector$',),
}


AT = ('at',)


def copied(p, c):
    """what the container c was filled from, element by element"""
    f = folds(p, c)
    if f and f[2] is not None and f[2][:1] == ('mut',) and f[2][1].split('::')[-1] in ('push_back', 'emplace_back') and f[2][2] == f[1] and len(f[2][3]) == 1:
        try:
            tn, els = turns(p, f[3])
        except Bad:
            return c
        for e, src in els:
            if f[2][3][0] == e and f[0][:1] == ('ctor',) and f[0][2] == ():
                return src
    return c


def agrees(p, m, pat):
    """the message m is what pat says: ('each', container, [patterns with ('at',)]) for loops"""
    F = p.facts
    if pat[0] in ('arr', 'push'):
        if m[0] != pat[0]:
            return False
        i, xs = 0, [x for x in m[2] if x[0] != 'rep' or not nothing(F, turns(p, x[1])[0])]
        for q in pat[1]:
            if q[0] == 'each':
                c = q[1]
                if i < len(xs) and xs[i][0] == 'rep':
                    tn, els = turns(p, xs[i][1])
                    ok_ = False
                    for e, src in els or [(None, None)]:
                        if copied(p, src) == c or src == c:
                            ok_ = ok_ or len(xs[i][2]) == len(q[2]) and all(agrees(p, a, replaced(b, {AT: e})) for a, b in zip(xs[i][2], q[2]))
                        elif tn == size(c) and c is not None:
                            for l, e2 in index_terms(p, xs[i][1], c):
                                ok_ = ok_ or len(xs[i][2]) == len(q[2]) and all(agrees(p, a, replaced(b, {AT: e2})) for a, b in zip(xs[i][2], q[2]))
                    if not ok_:
                        return False
                    i += 1
                elif not nothing(F, size(c)) and not any(x.kind == 'loop' and x.info == 'zero' for x in p.events):
                    return False
            else:
                if i >= len(xs) or not agrees(p, xs[i], q):
                    return False
                i += 1
        return i == len(xs)
    if pat[0] in ('bulk', 'simple', 'err'):
        if m[0] != pat[0]:
            return False
        return tuple(m[1]) == tuple(joined(pat[1]))
    return m == pat


def joined(parts):
    out = []
    for x in parts:
        if x[0] == 's' and out and out[-1][0] == 's':
            out[-1] = ('s', out[-1][1] + x[1])
        elif x != ('s', ''):
            out.append(x)
    return out


def index_terms(p, lid, c):
    out = []
    for e in p.events:
        if e.kind == 'loop' and e.info == 'begin' and e.val[1] == lid:
            for v, a, b in e.args:
                if a == ZERO:
                    out.append((v, ('call', '[]', c, b)))
    return out


def S(x):
    return ('s', x)


def B(*x):
    return ('bulk', x)


def num(x):
    return ('call', 'std::to_string', x)


def contents_table():
    def either(f, p, push, arr):
        a, b = possible(p.facts, ne(P(f, 0), ZERO)), possible(p.facts, eq(P(f, 0), ZERO))
        return push if a and not b else arr if b and not a else ('none',)

    def sub_(word, pty):
        def g(f, p):
            return either(f, p, ('push', [B(S('pubsub')), B(S(word)), B(P(f, 1)), ('int', P(f, 2))]), ('arr', [B(S(word)), B(P(f, 1)), ('int', P(f, 2))]))
        return g

    def msg(word, n):
        def g(f, p):
            xs = [B(S(word))] + [B(P(f, i)) for i in range(1, n)]
            return either(f, p, ('push', [B(S('pubsub'))] + xs), ('arr', xs))
        return g

    RRC = 'quarkdb::RedisRequest::contents'
    return {
        'err': lambda f, p: ('err', (S('ERR '), P(f, 0))),
        'noauth': lambda f, p: ('err', (S('NOAUTH '), P(f, 0))),
        'pong': lambda f, p: ('simple', (S('PONG'),)),
        'ok': lambda f, p: ('simple', (S('OK'),)),
        'null': lambda f, p: ('null',),
        'string': lambda f, p: B(P(f, len(f['params']) - 1)),
        'status': lambda f, p: ('simple', (P(f, len(f['params']) - 1),)),
        'integer': lambda f, p: ('int', P(f, len(f['params']) - 1)),
        'uint64': lambda f, p: ('int', P(f, len(f['params']) - 1)),
        'vector': lambda f, p: ('arr', [('each', P(f, 0), [B(AT)])]),
        'statusVector': lambda f, p: ('arr', [('each', P(f, len(f['params']) - 1), [('simple', (AT,))])]),
        'scan': lambda f, p: ('arr', [B(P(f, 0)), ('arr', [('each', P(f, 1), [B(AT)])])]),
        'simpleRedisRequest': lambda f, p: ('arr', [('each', ('.', P(f, 0), RRC), [B(AT)])]),
        'versionedVector': lambda f, p: ('arr', [('int', P(f, 0)), ('arr', [('each', P(f, 1), [B(AT)])])]),
        'vhashRevision': lambda f, p: ('arr', [('int', P(f, 0)), ('arr', [('each', P(f, 1), [B(('.', AT, 'std::pair::first')), B(('.', AT, 'std::pair::second'))])])]),
        'subscribe': sub_('subscribe', 0), 'unsubscribe': sub_('unsubscribe', 0), 'psubscribe': sub_('psubscribe', 1), 'punsubscribe': sub_('punsubscribe', 1),
        'message': msg('message', 3), 'pmessage': msg('pmessage', 4),
        'strstrint': lambda f, p: ('arr', [B(P(f, 0)), B(P(f, 1)), ('int', P(f, 2))]),
        'pushStrstrstrint': lambda f, p: ('push', [B(P(f, 0)), B(P(f, 1)), B(P(f, 2)), ('int', P(f, 3))]),
    }


@rule('C09', 'contents', 'replies carry what they were built from, in order')
def c09_contents(cx):
    tab = contents_table()
    n = 0
    for f in cx.p.methods('quarkdb::Formatter'):
        if short(f) not in tab:
            continue
        s = f['key'].replace('quarkdb::', '').split(')')[0] + ')'
        for p in cx.paths(f, opaque=OPQ.get(short(f), ()) + OPAQUE):
            if p.outcome != 'return':
                continue
            if 'RedisEncodedResponse' in f['ret']:
                v = Engine.project(p.val, RE + 'val')
            else:
                v = ('cat', tuple(shape(p, p.final(('var', f['params'][0]['id'], 0)))[1:]))
            try:
                ms, k = messages(p, v)
            except Bad:
                continue
            n += 1
            pat = tab[short(f)](f, p)
            cx.ob(len(ms) == 1 and agrees(p, ms[0], pat), s, 'carries what was given', None, p)
    cx.ob(n > 40, FM, 'replies are read back')


@rule('C09', 'composed', 'debugging replies carry the log entries')
def c09_composed(cx):
    ENT, EWI = 'quarkdb::RaftEntry::', 'quarkdb::RaftEntryWithIndex::'

    def val(x):
        return ('.', x, RE + 'val')

    def read(f, p):
        try:
            ms, k = messages(p, Engine.project(p.val, RE + 'val'))
        except Bad:
            return None
        return ms[0] if len(ms) == 1 else None

    def call_of(m, name):
        return m[1][1] if m is not None and m[0] == 'whole' and m[1][:1] == ('.',) and is_call(m[1][1], name) else None

    n = 0
    f = cx.fn(FM + 'raftEntry')
    s = f['name']
    for p in cx.paths(f, opaque=(), pure=('~Formatter::(simpleRedisRequest|redisRequest)$', '~quotes$')):
        flags = {x for l in p.facts.all() for x, c in l[1] if x[:1] == ('op',) and x[1] in ('==', '!=', '!')}
        if p.outcome != 'return' and not possible(p.facts, *[ge(x, ZERO) for x in flags]):
            continue
        cx.ob(p.outcome == 'return', s, 'announces as many elements as it adds', None, p)
        if p.outcome != 'return':
            continue
        m = read(f, p)
        F = p.facts
        xs = list(m[2]) if m is not None and m[0] == 'arr' else []
        n += 1
        if xs and not F.entails(eq(P(f, 2), C(-1))):
            cx.ob(F.entails(ne(P(f, 2), C(-1))) and xs[0] == B(S('INDEX: '), num(P(f, 2))), s, 'names the index', None, p)
            xs = xs[1:]
        cx.ob(len(xs) == 2 and xs[0] == B(S('TERM: '), num(Engine.project(P(f, 0), ENT + 'term'))), s, 'names the term', None, p)
        c = call_of(xs[-1], '~Formatter::(simpleRedisRequest|redisRequest)$') if xs else None
        cx.ob(c is not None and c[2] == Engine.project(P(f, 0), ENT + 'request') and F.entails((ne if 'simple' in c[1] else eq)(P(f, 1), ZERO)), s, 'carries the request', None, p)
    for name, idx in (('raftEntries', None), ('journalScan', 1)):
        f = cx.fn(FM + name)
        s = f['name']
        vec = P(f, 0) if idx is None else P(f, 1)
        for p in cx.paths(f, pure=('~Formatter::raftEntry$',)):
            if p.outcome != 'return':
                continue
            m = read(f, p)
            if m is None:
                continue
            n += 1
            if idx is not None:
                F = p.facts
                mk = B(S('0')) if F.entails(eq(P(f, 0), ZERO)) else B(S('next:'), num(P(f, 0)))
                cx.ob(len(m[2]) == 2 and m[2][0] == mk and (mk == B(S('0')) or F.entails(ne(P(f, 0), ZERO))), s, 'says where to go on', None, p)
                m = m[2][1]
            reps = [x for x in m[2] if x[0] == 'rep']
            if not reps:
                cx.ob(nothing(p.facts, size(vec)) or any(e.kind == 'loop' and e.info == 'zero' for e in p.events), s, 'carries all entries', None, p)
                continue
            c = call_of(reps[0][2][0], '~raftEntry$') if len(reps) == 1 and len(reps[0][2]) == 1 else None
            els = [e for e, src in turns(p, reps[0][1])[1] if src == vec]
            cx.ob(c is not None and any(c[2:] in (((e, P(f, 1), C(-1)),) if idx is None else ((('.', e, EWI + 'entry'), ZERO, ('.', e, EWI + 'index')),)) for e in els), s, 'carries all entries', None, p)
    f = cx.fn(FM + 'redisRequest')
    s = f['name']
    seen = 0
    RRC = 'quarkdb::RedisRequest::contents'
    txs = (eq(('.', P(f, 0), 'quarkdb::RedisRequest::command'), ('e', 'quarkdb::RedisCommand::TX_READWRITE')), eq(('.', P(f, 0), 'quarkdb::RedisRequest::command'), ('e', 'quarkdb::RedisCommand::TX_READONLY')))
    for p in cx.paths(f, pure=('~Formatter::simpleRedisRequest$',), opaque=OPAQUE):
        if p.outcome != 'return':
            continue
        n += 1
        ds = p.calls('~Transaction::deserialize$')
        if not ds:
            cx.ob(is_call(p.val, '~simpleRedisRequest$') and p.val[2] == P(f, 0) and all(p.facts.entails(tneg(t)) for t in txs), s, 'a request is carried as it is', None, p)
            continue
        m = read(f, p)
        if m is None or m[0] != 'arr':
            cx.ob(False, s, 'is an array', None, p)
            continue
        seen += 1 if any(x[0] == 'rep' for x in m[2]) else 0
        ix = ('call', '[]', ('.', P(f, 0), RRC), C(1))
        cx.ob(len(ds) == 1 and (ds[0].args[0] == ix or ix in ds[0].args[0][2:] or any(ix == x for x in subterms(ds[0].args[0]))), s, 'takes the transaction apart', None, p)
        xs = list(m[2])
        cx.ob(bool(xs) and xs[0] == B(('call', '[]', ('.', P(f, 0), RRC), C(0))), s, 'names the kind of transaction', None, p)
        reps = [x for x in xs if x[0] == 'rep']
        c = call_of(reps[0][2][0], '~simpleRedisRequest$') if len(reps) == 1 and len(reps[0][2]) == 1 else None
        if not reps:
            cx.ob(any(e.kind == 'loop' and e.info == 'zero' and is_zero_tx(e) for e in p.events), s, 'carries each of its requests', None, p)
        else:
            tn, els = turns(p, reps[0][1])
            ok_ = c is not None and is_call(c[2], '[]') and len(c[2]) == 4 and ds_after(p, ds[0]) is not None and tn == size(Engine.project(ds_after(p, ds[0]), 'quarkdb::Transaction::requests'))
            cx.ob(ok_ and ds_after(p, ds[0]) is not None and [1 for v, a, b in loop_events(p, reps[0][1])[0].args if a == ZERO and b == c[2][3]] != [] and is_tx(c[2][2]), s, 'carries each of its requests', None, p)
    cx.ob(seen, s, 'carries the requests of a transaction')
    f = cx.fn(FM + 'stats')
    s = f['name']
    for p in cx.paths(f, pure=('~Formatter::statusVector$',)):
        if p.outcome != 'return':
            continue
        n += 1
        v = p.val
        lines = pushed(v[2]) if is_call(v, '~statusVector$') else None
        want = [(S(w + ' '), num(Engine.project(P(f, 0), 'quarkdb::Statistics::' + m))) for w, m in (('TOTAL-READS', 'reads'), ('TOTAL-WRITES', 'writes'), ('TOTAL-TXREAD', 'txread'), ('TOTAL-TXREADWRITE', 'txreadwrite'))]
        cx.ob(lines is not None and [tuple(shape(p, x)) for x in lines] == want, s, 'names each counter', None, p)
    f = cx.fn(FM + 'fromStatus')
    s = f['name']
    ok_ = ('call', 'rocksdb::Status::ok', P(f, 0))
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        m = read(f, p)
        if m is None:
            continue
        n += 1
        F = p.facts
        good = m == ('simple', (S('OK'),))
        bad = m[0] == 'err' and len(m[1]) == 2 and m[1][0] == S('ERR ') and is_call(m[1][1], '~ToString$') and m[1][1][2] == P(f, 0)
        cx.ob(good and not possible(F, eq(ok_, ZERO)) or bad and not possible(F, ne(ok_, ZERO)), s, 'reports the outcome', None, p)
    f = cx.fn(FM + 'moved')
    s = f['name']
    RS = 'quarkdb::RaftServer::'
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        m = read(f, p)
        n += 1
        at = ('call', 'quarkdb::RaftServer::toString', P(f, 1))
        host = [at] if m is not None and at in m[1] else [Engine.project(P(f, 1), RS + 'hostname'), S(':'), num(Engine.project(P(f, 1), RS + 'port'))]
        cx.ob(m is not None and m[0] == 'err' and list(m[1]) == [S('MOVED '), num(P(f, 0)), S(' ')] + host, s, 'names the shard and the server', None, p)
    f = cx.fn(FM + 'errArgs')
    for p in cx.paths(f, opaque=OPAQUE):
        m = read(f, p) if p.outcome == 'return' else None
        if m is not None:
            cx.ob(m[0] == 'err' and len(m[1]) == 3 and m[1][0] == S("ERR wrong number of arguments for '") and m[1][1:] == (P(f, 0), S("' command")), f['name'], 'names the command', None, p)
    f = cx.fn(FM + 'vectorsWithHeaders')
    s = f['name']
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        m = read(f, p)
        n += 1
        cx.ob(p.facts.entails(eq(size(P(f, 0)), size(P(f, 1)))), s, 'as many headers as sections', None, p)
        if m is None or m[0] != 'arr':
            continue
        for r in m[2]:
            if r[0] != 'rep' or nothing(p.facts, turns(p, r[1])[0]):
                continue
            ix = [b for v, a, b in loop_events(p, r[1])[0].args if a == ZERO]
            x = r[2][0] if len(r[2]) == 1 else ('none',)
            ok_ = x[0] == 'arr' and x[1] == C(2) and len(x[2]) == 2
            at = [i for i in ix if ok_ and x[2][0] == ('simple', (('call', '[]', P(f, 0), i),))]
            cx.ob(bool(at), s, 'each section starts with its header', None, p)
            if not at:
                continue
            sec = ('call', '[]', P(f, 1), at[0])
            cx.ob(x[2][1][:1] == ('arr',) and x[2][1][1] == size(sec) and agrees(p, x[2][1], ('arr', [('each', sec, [('simple', (AT,))])])), s, 'followed by its lines', None, p)
    cx.ob(n > 12, FM, 'composed replies')


def is_zero_tx(e):
    return any(l[0] in ('le', 'eq') and any(is_call(t, 'size') and is_tx(t[2]) for t, c in l[1]) for l in e.facts.all())


def is_tx(v):
    return v[:1] == ('.',) and v[2] == 'quarkdb::Transaction::requests'


def ds_after(p, e):
    for x in p.events:
        if x.kind == 'loop' and x.n > e.n:
            for v, a, b in x.args or ():
                if isinstance(a, tuple) and a[:1] in (('mut',), ('out',)) and a[1].endswith('Transaction::deserialize'):
                    return a
    return None


def pushed(v):
    """the values pushed into an empty vector, first to last"""
    out = []
    while v[:1] == ('mut',) and v[1].split('::')[-1] in ('push_back', 'emplace_back') and len(v[3]) == 1:
        out.insert(0, v[3][0])
        v = v[2]
    return out if v[:1] == ('ctor',) and v[2] == () else None


@rule('C09', 'builder', 'a reply is handed out once all announced elements are there')
def c09_builder(cx):
    rem, ph, ss = (thisloc(AB + x) for x in ('itemsRemaining', 'phantom', 'ss'))
    n = 0
    for f in cx.p.fns(AB + 'ArrayResponseBuilder'):
        if len(f['params']) != 2:
            continue
        s = f['name']
        for p in cx.paths(f):
            if p.outcome == 'throw':
                cx.ob(p.facts.entails(le(P(f, 0), ZERO)), s, 'any number of elements', None, p)
                continue
            n += 1
            F = p.facts
            cx.ob(p.final(rem) == P(f, 0) and F.entails(ge(P(f, 0), C(1))), s, 'waits for as many elements as announced', None, p)
            t = shape(p, p.final(ss))
            fresh = ('init', ss)
            t = [x for x in t if x != fresh and not (x[:1] == ('ctor',) and x[2] == ())]
            head = [S('*'), num(P(f, 0)), S(CRLF)]
            cx.ob(t == head and F.entails(eq(P(f, 1), ZERO)) or t == [] and F.entails(ne(P(f, 1), ZERO)), s, 'announces them, unless they are sent as they are', None, p)
    f = cx.fn(AB + 'push_back')
    s = f['name']
    r0 = this(AB + 'itemsRemaining')
    for p in cx.paths(f):
        F = p.facts
        if p.outcome == 'throw':
            cx.ob(F.entails(le(r0, ZERO)) and p.final(ss) == this(AB + 'ss'), s, 'accepts every announced element', None, p)
            continue
        n += 1
        cx.ob(F.entails(ne(r0, ZERO)), s, 'refuses surplus elements', None, p)
        cx.ob(p.final(rem) == sub(r0, C(1)), s, 'counts each element once', None, p)
        cx.ob(shape(p, p.final(ss)) == [this(AB + 'ss'), ('.', P(f, 0), RE + 'val')], s, 'adds the element', None, p)
    f = cx.fn(AB + 'buildResponse')
    s = f['name']
    for p in cx.paths(f):
        F = p.facts
        if p.outcome == 'throw':
            cx.ob(F.entails(ne(r0, ZERO)), s, 'a complete reply is handed out', None, p)
            continue
        n += 1
        cx.ob(F.entails(eq(r0, ZERO)), s, 'an incomplete reply is not', None, p)
        cx.ob(shape(p, Engine.project(p.val, RE + 'val')) == [this(AB + 'ss')], s, 'hands out what was added', None, p)
    for fld in ('itemsRemaining', 'ss'):
        w = {short(g) for g in writers(cx, AB + fld)}
        cx.ob(w <= {'ArrayResponseBuilder', 'push_back'}, AB + fld, 'changes only in push_back: ' + ', '.join(sorted(w)), 'ArrayResponseBuilder.hh')
    cx.ob(n >= 4, AB, 'builds replies')
