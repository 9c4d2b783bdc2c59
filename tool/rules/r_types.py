"""Stored types and sizes: S02 (type errors change nothing), S03 (recorded sizes)."""
from itertools import product
from qdb.common import *
from qdb.values import to_lin
from rules.r_store import contains_term

S = 'quarkdb::StateMachine::'
W = S + 'WriteOperation::'
KT = 'quarkdb::KeyType::'
KI = W + 'keyinfo'
WRITES = {'writeField': 'f', 'writeLocalityField': 'lf', 'writeLocalityIndex': 'li', 'write': 'v'}
DELS = {'deleteField': 'f', 'deleteLocalityField': 'lf', 'getAndDeleteLocalityIndex': 'li'}
LOOKS = {'fieldExists': 'f', 'getField': 'f', 'localityFieldExists': 'lf', 'getLocalityIndex': 'li'}
KEYED = {'f': 1, 'lf': 2, 'li': 1, 'v': 0}
ENDS = ('finalize', 'cancel')
KNOWN = tuple(W + m for m in list(WRITES) + list(DELS) + list(LOOKS) + list(ENDS) + ['valid', 'keyExists', 'keySize', 'WriteOperation', '~WriteOperation', 'descriptorModifiedAlreadyInWriteBatch'])
DIRECT = '~StagingArea::(put|del|singleDelete)$'
OPQ = KNOWN + ('~StagingArea::', '~Locator::', S + 'getKeyDescriptor', S + 'lockKeyDescriptor', '~StateMachine::(maybeAdvanceClock|getClock|advanceClock|lease_release)$', '~ExpirationEventCache::', '~VersionedHashRevision(Tracker)?::', '~ParseUtils::', '~quarkdb::my_strtod$')
PURE = ('~KeyDescriptor::(get|empty)',)
TYPES = {'set': 'kString', 'hset': 'kHash', 'hmset': 'kHash', 'hsetnx': 'kHash', 'hincrby': 'kHash', 'hincrbyfloat': 'kHash', 'hdel': 'kHash', 'hclone': 'kHash',
         'sadd': 'kSet', 'srem': 'kSet', 'smove': 'kSet', 'lhset': 'kLocalityHash', 'lhmset': 'kLocalityHash', 'lhdel': 'kLocalityHash',
         'dequePush': 'kDeque', 'dequePop': 'kDeque', 'dequeTrimFront': 'kDeque', 'vhset': 'kVersionedHash', 'vhdel': 'kVersionedHash',
         'lease_acquire': 'kLease', 'lease_release': 'kLease'}
READS = {'get': 'kString', 'hget': 'kHash', 'hkeys': 'kHash', 'hgetall': 'kHash', 'hvals': 'kHash', 'hscan': 'kHash', 'hlen': 'kHash',
         'lhget': 'kLocalityHash', 'lhscan': 'kLocalityHash', 'lhlen': 'kLocalityHash', 'lhlocdel': 'kLocalityHash',
         'sismember': 'kSet', 'smembers': 'kSet', 'sscan': 'kSet', 'scard': 'kSet', 'dequeLen': 'kDeque', 'dequeScanBack': 'kDeque',
         'vhlen': 'kVersionedHash', 'vhgetall': 'kVersionedHash', 'lease_get': 'kLease'}
LEN = ('hlen', 'lhlen', 'scard', 'dequeLen', 'vhlen')


def short(n):
    return n.rsplit('::', 1)[-1]


def T(n):
    return ('e', KT + n)


def on_area(f):
    return bool(f['params']) and 'StagingArea' in f['params'][0]['t']


def users(cx):
    """the commands that build a write operation, by name"""
    out = {}
    for g, node in callers(cx, W + 'WriteOperation'):
        out[g['key']] = g
    return list(out.values())


def wrong(p):
    """the path answers with a type error"""
    v = p.val
    if v is not None and v[0] == 'e':
        return v[1].endswith('::kKeyTypeMismatch')
    return any(e.ret == v and 'WRONGTYPE' in repr(e.args) for e in p.calls('rocksdb::Status::InvalidArgument')) if v is not None else False


def opcalls(p, L=None):
    return [e for e in p.calls('~WriteOperation::') if L is None or e.objloc == L]


class Op:
    def __init__(self, p, e):
        self.p, self.start = p, e
        self.loc, self.args = e.objloc, e.args
        n = [x.n for x in p.calls(W + 'WriteOperation') if x.objloc == e.objloc and x.n > e.n]
        self.ev = [x for x in opcalls(p, e.objloc) if x.n > e.n and (not n or x.n < min(n))]

    def of(self, names):
        return [e for e in self.ev if short(e.name) in names]


def ops(p):
    return [Op(p, e) for e in p.calls(W + 'WriteOperation')]


@rule('S02', 'writers', 'a writing command touches nothing unless the type fits, and settles each key exactly once')
def s02_writers(cx):
    us = users(cx)
    cx.need(len(us) >= 15, 'commands that write through a write operation')
    for g in us:
        s = short(g['name'])
        n = {True: 0, False: 0}
        for p in cx.paths(g, opaque=OPQ, pure=PURE):
            oo = ops(p)
            direct = p.calls(DIRECT)
            writes = [e for o in oo for e in o.of(WRITES)]
            gone = [e for o in oo for e in o.of(DELS)]
            for o in oo:
                want = T(TYPES[s]) if s in TYPES else None
                if want is not None:
                    cx.ob(o.args[2] == want, s, 'the operation is opened with the type of the command', o.start.where(), p)
                cx.ob(o.start.arglocs[0] == ('var', g['params'][0]['id'], 0) or o.args[0] == P(g, 0) or not on_area(g), s, 'the operation works on the staging area of the command', o.start.where(), p)
                v = [result(e) for e in o.of(('valid',))]
                for e in o.of(tuple(WRITES) + tuple(DELS) + tuple(LOOKS) + ENDS):
                    cx.ob(any(e.facts.entails(ne(x, ZERO)) for x in v), s, 'used only once its type was found to fit', e.where(), p)
                for e in direct:
                    if e.n > o.start.n:
                        cx.ob(any(e.facts.entails(ne(x, ZERO)) for x in v), s, 'nothing is written before the type was checked', e.where(), p)
                if p.outcome != 'return':
                    continue
                bad = [x for x in v if p.facts.entails(eq(x, ZERO))]
                good = [x for x in v if p.facts.entails(ne(x, ZERO))]
                cx.ob(bool(bad) != bool(good), s, 'the type is checked', o.start.where(), p)
                if bad:
                    n[False] += 1
                    cx.ob(wrong(p), s, 'another type is answered by a type error', o.start.where(), p)
                    cx.ob(not direct and not writes and not gone, s, 'a type error leaves everything as it was', o.start.where(), p)
                else:
                    n[True] += 1
                    ends = o.of(ENDS)
                    cx.ob(len(ends) == 1 and not ends[0].loops, s, 'the key is settled exactly once', o.start.where(), p)
                    if len(ends) == 1:
                        later = [e for e in o.of(tuple(WRITES) + tuple(DELS)) if e.n > ends[0].n]
                        cx.ob(not later, s, 'nothing is written once the key is settled', o.start.where(), p)
                        mine = o.of(WRITES) + [e for e in o.of(DELS) if not p.facts.entails(eq(result(e), ZERO))]
                        if short(ends[0].name) == 'cancel':
                            cx.ob(not [x for x in mine if not none_made(p, o, x)] and not direct, s, 'what was written is recorded with its key description', ends[0].where(), p)
            if p.outcome == 'return' and wrong(p) and oo:
                other = [e for e in p.calls(S + 'getKeyDescriptor')]
                cx.ob(any(p.facts.entails(eq(result(e), ZERO)) for o in oo for e in o.of(('valid',))) or any(p.facts.entails(eq(('call', 'quarkdb::KeyDescriptor::empty', result(e)), ZERO)) for e in other), s, 'a type error is answered only for another type', None, p)
        cx.ob(n[True] and n[False], s, 'fitting and other types are told apart')


def none_made(p, o, x):
    """a deletion in a loop whose counter is known to be zero afterwards"""
    if short(x.name) not in DELS or not x.loops:
        return False
    evs = loop_events(p, x.loops[-1])
    beg = [e for e in evs if e.info == 'begin' and e.n < x.n]
    end = [e for e in evs if e.info == 'iterend' and e.n > x.n]
    ex = [e for e in evs if e.info == 'exit' and e.n > x.n]
    if not beg or not end or not ex:
        return False
    sec = [e for e in o.ev if beg[-1].n < e.n < end[0].n]
    for var, _, cur in ex[0].args:
        st = [b for v, b, _ in beg[-1].args if v == var]
        step = [sub(c, b) for v, b, c in end[0].args if v == var]
        if st and step and st[0] == ZERO and p.facts.entails(eq(cur, ZERO)):
            try:
                ok = all(r is not None and not r[0][1] and r[0][0] == -r[1] for G, r in split(end[0].facts, lambda G: (value(step[0], G), made(sec, G, DELS[short(x.name)]))))
            except (TypeError, AttributeError):
                ok = False
            if ok:
                return True
    return False


def loc_type(ctor):
    """the type of data a locator names, and its key"""
    nm = short(ctor.name)
    if nm == 'FieldLocator':
        return ctor.args[0], ctor.args[1]
    m = {'LocalityFieldLocator': 'kLocalityHash', 'LocalityIndexLocator': 'kLocalityHash', 'StringLocator': 'kString', 'LeaseLocator': 'kLease'}
    if nm in m and ctor.args:
        return T(m[nm]), ctor.args[0]
    return None, None


@rule('S02', 'readers', 'a reading command reads data of a key only when the stored type fits')
def s02_readers(cx):
    EM, GT = 'quarkdb::KeyDescriptor::empty', 'quarkdb::KeyDescriptor::getKeyType'
    for s, k in READS.items():
        fs = [f for f in cx.p.fns(S + s) if on_area(f)]
        cx.need(len(fs) == 1, 'command ' + s)
        g = fs[0]
        key = P(g, 1)
        k = T(k)
        n = {True: 0, False: 0}
        for p in cx.paths(g, opaque=OPQ + (S + 'lhdel', '~EscapedPrefixExtractor::', '~rocksdb::(?!Status)'), pure=PURE + ('~StringUtils::', '~extractPatternPrefix$', '~stringmatchlen$', '~quarkdb::(binaryStringTo|unsignedIntTo)')):
            if p.outcome != 'return':
                continue
            ds = [result(e) for e in p.calls(S + 'getKeyDescriptor') if e.args[-1] == key]
            fits = [d for d in ds if not possible(p.facts, eq(('call', EM, d), ZERO), ne(('call', GT, d), k))]
            off = [d for d in ds if p.facts.entails(eq(('call', EM, d), ZERO)) and p.facts.entails(ne(('call', GT, d), k))]
            if wrong(p):
                n[False] += 1
                cx.ob(bool(off), s, 'a type error is answered only for another type', None, p)
                cx.ob(not p.calls('~StagingArea::(put|del|singleDelete|get|exists|getIterator)$'), s, 'a type error touches no data', None, p)
            elif p.val is not None and any(e.ret == p.val and not p.calls('~Locator$', DIRECT) for e in p.calls('rocksdb::Status::InvalidArgument')):
                continue                       # malformed arguments
            else:
                n[True] += 1
                cx.ob(bool(fits) and not off, s, 'another type is answered by a type error', None, p)
            for e in p.calls('~Locator::(?!~)[A-Za-z]*Locator$'):
                t, kk = loc_type(e)
                if t is None:
                    continue
                cx.ob(t == k and kk == key, s, 'reads the data of the type and key that were checked', e.where(), p)
                cx.ob(any(not possible(e.facts, eq(('call', EM, d), ZERO), ne(('call', GT, d), k)) for d in ds), s, 'reads data only after the type was checked', e.where(), p)
            if s in LEN and not wrong(p):
                out = ('var', g['params'][-1]['id'], 0)
                cx.ob(any(p.facts.eqv(p.final(out), ('call', 'quarkdb::KeyDescriptor::getSize', d)) for d in ds), s, 'answers the recorded size', None, p)
        cx.ob(n[True] and n[False], s, 'fitting and other types are told apart')
    # every command on the store is one of those known here
    other = {'exists', 'keys', 'scan', 'flushall', 'del', 'configGet', 'configSet', 'configGetall', 'rawScan', 'rawScanTombstones', 'rawScanMaybeTombstones', 'getType', 'getClock', 'advanceClock', 'maybeAdvanceClock',
             'lease_get_pending_expiration_events', 'artificiallySlowWriteNeverUseThis', 'hexists', 'dequePushFront', 'dequePushBack', 'dequePopFront', 'dequePopBack', 'getKeyDescriptor', 'lockKeyDescriptor', 'assertKeyType', 'remove_all_with_prefix', 'lhsetInternal', 'commitTransaction', 'commitBatch'}
    for fk, g in cx.p.fn.items():
        if not g['name'].startswith(S) or g['name'].count('::') != 2 or not on_area(g) or g.get('ctor'):
            continue
        s = short(g['name'])
        if s in TYPES or s in READS or s in other:
            continue
        reads = [x for x in walk(g.get('body')) if x.get('k') in ('call', 'new', 'ctor') and match(x.get('f') or '', ('~(Field|String|Lease|LocalityIndex)Locator::[A-Za-z]*Locator$',))]
        chk = [x for x in walk(g.get('body')) if x.get('k') == 'call' and short(x.get('f') or '') in ('assertKeyType', 'getKeyDescriptor', 'valid')]
        cx.ob(not reads or bool(chk), s, 'a command that reads data of a key checks its type', '%s:%s' % (g['file'], g['line']))


def locator(v):
    """('FieldLocator', args) of a locator's text"""
    if v[0] == 'call' and v[1].endswith('::toView') and len(v) == 3 and v[2][0] == 'ctor':
        return short(v[2][1]), v[2][2]
    return None, None


@rule('S02', 'operation', 'a write operation is valid exactly for keys that are absent or of its type, and works on that key only')
def s02_operation(cx):
    f = cx.fn(W + 'WriteOperation')
    s = 'WriteOperation'
    kd = 'quarkdb::KeyDescriptor'
    n = {True: 0, False: 0}
    pl = ('~Locator::',)
    for p in cx.paths(f, opaque=('~StagingArea::',), pure=pl):
        g = p.calls('~StagingArea::(getForUpdate|get)$')
        if p.outcome != 'return':
            cx.ob(not g or not possible(p.facts, ne(('call', 'rocksdb::Status::IsNotFound', g[0].ret), ZERO)), s, 'an absent key is no error', None, p)
            continue
        cx.ob(len(g) == 1, s, 'the stored description is read once', None, p)
        if len(g) != 1:
            continue
        g = g[0]
        cx.ob(repr(P(f, 1)) in repr(g.args[0]) and 'DescriptorLocator' in repr(g.args[0]) or any(e.args and e.args[0] == P(f, 1) and e.n < g.n for e in p.calls('~DescriptorLocator::(reset|DescriptorLocator)$')), s, 'the description of the key itself is read', g.where(), p)
        valid, fin, typ = p.final(thisloc(W + 'isValid')), p.final(thisloc(W + 'finalized')), p.final(thisloc(KI))
        kt = Engine.project(typ, kd + '::keyType')
        ex = p.final(thisloc(W + 'redisKeyExists'))
        cx.ob(p.final(thisloc(W + 'redisKey')) == P(f, 1), s, 'the key is the one given', None, p)
        absent = ('call', 'rocksdb::Status::IsNotFound', g.ret)
        ok = ('call', 'rocksdb::Status::ok', g.ret)
        cx.ob(p.facts.entails(ne(absent, ZERO)) or p.facts.entails(ne(ok, ZERO)), s, 'a failed read is not taken for an absent key', None, p)
        for F in p.facts.with_(ne(valid, ZERO)):
            n[True] += 1
            cx.ob(F.entails(eq(kt, P(f, 2))), s, 'a valid operation works on the type given', None, p)
            cx.ob(not possible(F, ne(fin, ZERO)), s, 'a valid operation is open', None, p)
            if F.entails(ne(absent, ZERO)):
                cx.ob(F.entails(eq(ex, ZERO)) and F.entails(eq(Engine.project(typ, kd + '::sz'), ZERO)), s, 'an absent key starts empty', None, p)
            else:
                cx.ob(F.entails(ne(ex, ZERO)) or any(F.entails(eq(Engine.project(w.val, kd + '::keyType'), T('kNull'))) for w in p.events if w.kind == 'write' and w.loc == thisloc(KI)), s, 'a stored key exists', None, p)
        for F in p.facts.with_(eq(valid, ZERO)):
            n[False] += 1
            cx.ob(not F.entails(ne(absent, ZERO)) and not possible(F, eq(kt, P(f, 2))), s, 'an operation is refused only for another type', None, p)
            cx.ob(not possible(F, eq(fin, ZERO)), s, 'a refused operation is closed', None, p)
    cx.ob(n[True] and n[False], s, 'valid and refused')
    iv, fz = this(W + 'isValid'), this(W + 'finalized')
    for nm, fld in (('valid', 'isValid'), ('keyExists', 'redisKeyExists')):
        f = cx.fn(W + nm)
        for p, b, F in bool_cases(cx.paths(f)):
            cx.ob(F.entails(ne(this(W + fld), ZERO)) if b else F.entails(eq(this(W + fld), ZERO)), nm, 'answers what was found', None, p)
    f = cx.fn(W + 'keySize')
    for p in returns(cx.paths(f)):
        cx.ob(p.facts.eqv(p.val, ('init', ('f', thisloc(KI), kd + '::sz'))), 'keySize', 'answers the recorded size', None, p)
    me = this(W + 'redisKey')
    mt = ('init', ('f', thisloc(KI), kd + '::keyType'))
    LK = T('kLocalityHash')
    shape_ = {
        'fieldExists': ('FieldLocator', lambda f: (mt, me, P(f, 0)), None, 'exists'),
        'getField': ('FieldLocator', lambda f: (mt, me, P(f, 0)), None, 'get'),
        'writeField': ('FieldLocator', lambda f: (mt, me, P(f, 0)), None, 'put'),
        'deleteField': ('FieldLocator', lambda f: (mt, me, P(f, 0)), None, 'del'),
        'localityFieldExists': ('LocalityFieldLocator', lambda f: (me, P(f, 0), P(f, 1)), LK, 'exists'),
        'writeLocalityField': ('LocalityFieldLocator', lambda f: (me, P(f, 0), P(f, 1)), LK, 'put'),
        'deleteLocalityField': ('LocalityFieldLocator', lambda f: (me, P(f, 0), P(f, 1)), LK, 'del'),
        'getLocalityIndex': ('LocalityIndexLocator', lambda f: (me, P(f, 0)), LK, 'get'),
        'writeLocalityIndex': ('LocalityIndexLocator', lambda f: (me, P(f, 0)), LK, 'put'),
        'getAndDeleteLocalityIndex': ('LocalityIndexLocator', lambda f: (me, P(f, 0)), LK, 'del'),
    }
    for nm, (cls, want, typ, act) in shape_.items():
        f = cx.fn(W + nm)
        n = 0
        for p in cx.paths(f, opaque=('~StagingArea::',), pure=pl):
            if p.outcome != 'return':
                continue
            n += 1
            cx.ob(p.facts.entails(ne(iv, ZERO)) and p.facts.entails(eq(fz, ZERO)), nm, 'works only while valid and open', None, p)
            if typ is not None:
                cx.ob(p.facts.entails(eq(mt, typ)), nm, 'works only on its type', None, p)
            st = p.calls('~StagingArea::(get|exists|put|del|singleDelete|getForUpdate|readFromWriteBatch)$')
            for e in st:
                c, a = locator(e.args[0])
                w = want(f)
                cx.ob(c == cls and a is not None and len(a) == len(w) and all(p.facts.eqv(x, y) or x == y for x, y in zip(a, w)), nm, 'works on the field given of its own key', e.where(), p)
            ch = [e for e in st if short(e.name) in ('put', 'del', 'singleDelete')]
            lk = [e for e in st if short(e.name) in ('get', 'exists')]
            if act == 'put':
                val = P(f, len(f['params']) - 1)
                cx.ob(len(ch) == 1 and short(ch[0].name) == 'put' and ch[0].args[1] == val, nm, 'writes the value given', None, p)
                continue
            cx.ob(len(lk) == 1, nm, 'looks the field up', None, p)
            if len(lk) != 1:
                continue
            ok = ('call', 'rocksdb::Status::ok', lk[0].ret)
            nf = ('call', 'rocksdb::Status::IsNotFound', lk[0].ret)
            for _, b, F in bool_cases([p]):
                cx.ob(F.entails(ne(ok, ZERO)) if b else F.entails(eq(ok, ZERO)), nm, 'answers whether the field was there', None, p)
            cx.ob(p.facts.entails(ne(ok, ZERO)) or p.facts.entails(ne(nf, ZERO)), nm, 'a failed read is no answer', None, p)
            if act == 'del':
                if p.facts.entails(ne(ok, ZERO)):
                    cx.ob(len(ch) == 1 and short(ch[0].name) == 'del', nm, 'a field that was there is deleted', None, p)
                else:
                    cx.ob(not ch, nm, 'nothing else is deleted', None, p)
            else:
                cx.ob(not ch, nm, 'looking up changes nothing', None, p)
        cx.ob(n > 0, nm, 'works')
    f = cx.fn(W + 'write')
    got = set()
    for p in cx.paths(f, opaque=('~StagingArea::',), pure=pl):
        if p.outcome != 'return':
            continue
        cx.ob(p.facts.entails(ne(iv, ZERO)) and p.facts.entails(eq(fz, ZERO)), 'write', 'works only while valid and open', None, p)
        ch = p.calls('~StagingArea::(put|del|singleDelete)$')
        cx.ob(len(ch) == 1 and short(ch[0].name) == 'put' and ch[0].args[1] == P(f, 0), 'write', 'writes the value given', None, p)
        for e in ch:
            c, a = locator(e.args[0])
            got.add(c)
            k = {'StringLocator': 'kString', 'LeaseLocator': 'kLease'}.get(c)
            cx.ob(k is not None and a == (me,) and p.facts.entails(eq(mt, T(k))), 'write', 'strings and leases go where their type belongs', e.where(), p)
    cx.ob(got == {'StringLocator', 'LeaseLocator'}, 'write', 'strings and leases')
    f = cx.fn(W + 'cancel')
    for p in returns(cx.paths(f, opaque=('~StagingArea::',), pure=pl)):
        cx.ob(not p.calls(DIRECT) and not possible(p.facts, eq(p.final(thisloc(W + 'finalized')), ZERO)), 'cancel', 'closes the operation without writing', None, p)
    f = cx.fn(W + 'descriptorModifiedAlreadyInWriteBatch')
    for p, b, F in bool_cases(cx.paths(f, opaque=('~StagingArea::',), pure=pl)):
        r = p.calls('~StagingArea::readFromWriteBatch$')
        cx.ob(len(r) == 1 and 'dlocator' in repr(r[0].args[0]), 'descriptorModifiedAlreadyInWriteBatch', 'looks for its own description in the batch', None, p)
        for e in r[:1]:
            ok = ('call', 'rocksdb::Status::ok', e.ret)
            cx.ob(F.entails(ne(ok, ZERO)) if b else F.entails(ne(('call', 'rocksdb::Status::IsNotFound', e.ret), ZERO)), 'descriptorModifiedAlreadyInWriteBatch', 'answers whether the batch holds it', None, p)


@rule('S03', 'finalize', 'settling a key records exactly the size given, and drops the description of an empty collection only')
def s03_finalize(cx):
    f = cx.fn(W + 'finalize')
    s = 'finalize'
    kd = 'quarkdb::KeyDescriptor'
    mt = ('init', ('f', thisloc(KI), kd + '::keyType'))
    sz = ('init', ('f', thisloc(KI), kd + '::sz'))
    new, force = P(f, 0), P(f, 1)
    n = {'put': 0, 'del': 0, 'none': 0}
    KEEP = (T('kVersionedHash'), T('kString'))
    for p in cx.paths(f, opaque=('~StagingArea::',), pure=('~Locator::', '~KeyDescriptor::serialize$')):
        ch = p.calls(DIRECT)
        if p.outcome != 'return':
            cx.ob(not ch, s, 'a refused size changes nothing', None, p)
            continue
        cx.ob(p.facts.entails(ge(new, ZERO)), s, 'a size is never negative', None, p)
        cx.ob(p.facts.entails(ne(this(W + 'isValid'), ZERO)) and p.facts.entails(eq(this(W + 'finalized'), ZERO)), s, 'only a valid, open operation is settled', None, p)
        cx.ob(not possible(p.facts, eq(p.final(thisloc(W + 'finalized')), ZERO)), s, 'the operation is closed', None, p)
        cx.ob(len(ch) <= 1, s, 'at most one change', None, p)
        for e in ch:
            cx.ob(e.args[0][0] == 'call' and e.args[0][1].endswith('DescriptorLocator::toView') and W + 'dlocator' in repr(e.args[0]), s, 'on the description of the key', e.where(), p)
        if not ch:
            n['none'] += 1
            cx.ob(p.facts.entails(eq(sz, new)) and p.facts.entails(eq(force, ZERO)), s, 'the description is left alone only when unchanged', None, p)
            cx.ob(not possible(p.facts, eq(new, ZERO), ne(mt, KEEP[0]), ne(mt, KEEP[1])), s, 'an empty collection disappears', None, p)
        elif short(ch[0].name) == 'put':
            n['put'] += 1
            v = ch[0].args[1]
            ok = v[0] == 'call' and v[1].endswith('KeyDescriptor::serialize')
            cx.ob(ok and p.facts.eqv(Engine.project(v[2], kd + '::sz'), new), s, 'the size given is recorded', ch[0].where(), p)
            if ok:
                cx.ob(repr(KI) in repr(v[2]), s, 'in the description of the key', ch[0].where(), p)
            cx.ob(not possible(p.facts, eq(new, ZERO), ne(mt, KEEP[0]), ne(mt, KEEP[1])), s, 'an empty collection is not kept', None, p)
        else:
            n['del'] += 1
            cx.ob(short(ch[0].name) == 'del' and p.facts.entails(eq(new, ZERO)), s, 'a key is dropped only when empty', None, p)
            cx.ob(all(p.facts.entails(ne(mt, k)) for k in KEEP), s, 'versioned hashes and strings are not dropped for being empty', None, p)
    cx.ob(all(n.values()), s, 'kept, updated, dropped')


class Unknown(Exception):
    pass


def made(evs, F, cat):
    """elements of a category created minus removed by the events, given the facts (None: not known)"""
    tot = 0
    for i, e in enumerate(evs):
        nm = short(e.name)
        if DELS.get(nm) == cat:
            r = result(e)
            if F.entails(ne(r, ZERO)):
                tot -= 1
            elif not F.entails(eq(r, ZERO)):
                raise Unknown(r)
        elif WRITES.get(nm) == cat:
            k = KEYED[cat]
            args = e.args[:k]
            seen = None
            for h in evs[:i]:
                hn = short(h.name)
                if (LOOKS.get(hn) == cat or DELS.get(hn) == cat or WRITES.get(hn) == cat) and h.args[:k] == args:
                    seen = h
            if seen is None:
                raise Unknown(None)
            hn = short(seen.name)
            if hn in WRITES:
                continue
            r = result(seen)
            if hn in DELS or F.entails(eq(r, ZERO)):
                tot += 1
            elif not F.entails(ne(r, ZERO)):
                raise Unknown(r)
    return tot


def value(v, F):
    """the number a linear value stands for under the facts, apart from the terms kept"""
    c, ts = to_lin(v)
    out, keep = c, []
    for t, k in (ts.items() if isinstance(ts, dict) else ts):
        n = None
        if t[0] == 'op' and t[1] == '!':
            n = 0 if F.entails(ne(t[2], ZERO)) else 1 if F.entails(eq(t[2], ZERO)) else None
        elif t[0] == 'ret' and short(t[2]) in tuple(LOOKS) + tuple(DELS):
            n = 1 if F.entails(ne(t, ZERO)) else 0 if F.entails(eq(t, ZERO)) else None
            if n is None:
                raise Unknown(t)
        if n is None:
            keep.append((t, k))
        else:
            out += k * n
    return out, keep


def split(F, fun):
    """apply fun under every resolution of the unknown answers"""
    todo, out = [F], []
    while todo:
        G = todo.pop()
        try:
            out.append((G, fun(G)))
        except Unknown as u:
            if u.args[0] is None:
                out.append((G, None))
                continue
            todo += G.with_(ne(u.args[0], ZERO)) + G.with_(eq(u.args[0], ZERO))
            if len(out) + len(todo) > 64:
                return [(F, None)]
    return out


@rule('S03', 'counts', 'every write settles its key with the old size plus the elements it made minus those it removed')
def s03_counts(cx):
    n = 0
    for g in users(cx):
        s = short(g['name'])
        for p in cx.paths(g, opaque=OPQ, pure=PURE):
            for o in ops(p):
                typ = o.args[2]
                for e in o.of(('finalize',)):
                    n += 1
                    if typ in (T('kString'), T('kLease')):
                        w = [x for x in o.of(('write',)) if x.n < e.n]
                        if w:
                            cx.ob(e.facts.eqv(e.args[0], size(w[-1].args[0])), s, 'a value is recorded with its length', e.where(), p)
                            ex = [result(x) for x in o.of(('keyExists',))]
                            cx.ob(not possible(e.facts, eq(size(w[-1].args[0]), ZERO), eq(e.args[1], ZERO), *([eq(x, ZERO) for x in ex] or [eq(ZERO, ZERO)])), s, 'a new key is recorded even for an empty value', e.where(), p)
                        else:
                            cx.ob(e.facts.eqv(e.args[0], ZERO) and typ == T('kLease'), s, 'only a lease that goes is settled without a value', e.where(), p)
                        continue
                    if typ == T('kDeque'):
                        continue
                    settle(cx, g, s, p, o, e, typ)
    cx.need(n >= 20, 'settled keys')


def settle(cx, g, s, p, o, e, typ):
    cats = ('lf', 'li') if typ == T('kLocalityHash') else ('f',)
    E = e.args[0]
    mine = [x for x in o.ev if x.n < e.n]
    turns, open_ = [], []                    # complete turns of loops, and those left early
    for x in p.events:
        if x.kind == 'loop' and x.n > o.start.n and x.n < e.n:
            if x.info == 'begin':
                open_.append(x)
            elif x.info == 'iterend':
                b = [y for y in open_ if y.val[1] == x.val[1]]
                if b:
                    open_.remove(b[-1])
                    turns.append((b[-1], x))
    flat_ = [x for x in mine if not any(b.n < x.n < z.n for b, z in turns)]
    outs = [x for x in p.events if x.kind == 'loop' and x.info == 'exit' and o.start.n < x.n < e.n]
    fresh = any(e.facts.entails(eq(result(x), ZERO)) for x in o.of(('keyExists',)))
    for cat in cats:
        for F, d in split(e.facts, lambda G: (loop_made(p, flat_, G, cat, fresh), value(E, G))):
            if d is None:
                cx.ob(False, s, 'whether each element is new or was there is known', e.where(), p)
                continue
            delta, (c, keep) = d
            todo, base, rest, used = list(keep), [], [], {}
            while todo:
                t, k = todo.pop()
                if t[0] == 'ret' and t[2] == W + 'keySize' and any(result(x) == t for x in o.of(('keySize',))):
                    base.append(k)
                    continue
                src = None
                for x in outs:                # a counter after its loop: what it was before, plus its turns
                    for var, _, cur in x.args:
                        if cur == t:
                            b = [y for y, z in turns if y.val[1] == x.val[1] and y.n < x.n]
                            if b:
                                src = (b[0], var)
                for b in open_:               # a counter in a turn left early
                    for var, _, cur in b.args:
                        if cur == t:
                            src = (b, var)
                if src is None:
                    rest.append((t, k))
                    continue
                st = [a for var, a, _ in src[0].args if var == src[1]][0]
                try:
                    cc, kk = value(st, F)
                except Unknown:
                    rest.append((t, k))
                    continue
                c += k * cc
                todo += [(q, k * kq) for q, kq in kk]
                used.setdefault(src[0].val[1], []).append((src[1], k))
            for b, z in turns:
                sec = [x for x in mine if b.n < x.n < z.n and not any(b.n < y.n < x.n < w.n < z.n for y, w in turns)]

                def it(G):
                    tot, kk = 0, []
                    for var, st, cur in z.args:
                        for v_, k in used.get(b.val[1], ()):
                            if v_ == var:
                                a, q = value(sub(cur, st), G)
                                tot += a * k
                                kk += q
                    return tot, kk, loop_made(p, sec, G, cat, fresh)
                for G, r in split(z.facts, it):
                    cx.ob(r is not None and not r[1] and r[0] == r[2], s, 'each turn counts exactly the elements it made and removed', b.where(), p)
            cx.ob((base == [1] or not base and fresh) and not rest and c == delta, s, 'the new size is the old one plus what was made minus what was removed', e.where(), p)


def loop_made(p, sec, G, cat, fresh):
    if not fresh:
        return made(sec, G, cat)
    # a copy into a key that did not exist: every field comes from its own stored record
    w = [x for x in sec if WRITES.get(short(x.name)) == cat]
    if len(w) == 1 and 'rocksdb::Iterator::key' in repr(w[0].args[0]) and not [x for x in sec if short(x.name) in DELS]:
        return 1
    return made(sec, G, cat)


def spread(v, d):
    """a linear value with products by d multiplied out"""
    c, ts = to_lin(v)
    out = {}
    for t, k in ts.items():
        if t[:2] == ('op', '*') and d in t[2:]:
            x = t[3] if t[2] == d else t[2]
            cc, xs = to_lin(x)
            if cc:
                out[d] = out.get(d, 0) + k * cc
            for y, m in xs.items():
                q = ('op', '*', y, d)
                out[q] = out.get(q, 0) + k * m
        else:
            out[t] = out.get(t, 0) + k
    return c, {t: k for t, k in out.items() if k}


def same_sum(F, a, b, d):
    x, y = spread(a, d), spread(b, d)
    if x == y:
        return True
    dd = dict(x[1])
    for t, k in y[1].items():
        dd[t] = dd.get(t, 0) - k
    dd = {t: k for t, k in dd.items() if k}
    diff = C(x[0] - y[0])
    for t, k in dd.items():
        for _ in range(abs(k)):
            diff = add(diff, t) if k > 0 else sub(diff, t)
    return F.entails(eq(diff, ZERO))


def loop_maps(p, lid, e):
    """the values loop variables have (in the turn around e): at the start of the turn -> at loop entry, at its end, after the loop"""
    evs = loop_events(p, lid)
    beg = [x for x in evs if x.info == 'begin' and x.n < e.n]
    end = [x for x in evs if x.info == 'iterend' and x.n > e.n]
    ex = [x for x in evs if x.info in ('exit', 'break') and x.n > e.n]
    if not beg or not end or not ex:
        return None
    cur = {v: b for v, _, b in beg[-1].args}
    ent = {b: a for v, a, b in beg[-1].args if b != a}
    nxt = {cur[v]: c for v, _, c in end[0].args if v in cur and cur[v] != c}
    fin = {cur[v]: c for v, _, c in ex[0].args if v in cur and cur[v] != c}
    return ent, nxt, fin


def indexes(p, op):
    """the list of a deque as found, as left: ({start, end, size}, {start, end, size})"""
    kd = 'quarkdb::KeyDescriptor::'
    ki = ('f', op.loc, KI)
    names = {'start': kd + 'startIndex', 'end': kd + 'endIndex', 'size': kd + 'sz'}
    return names, {k: p.final(('f', ki, n)) for k, n in names.items()}


DEQ = dict(opaque=(W + 'WriteOperation', W + '~WriteOperation', '~ParseUtils::', '~StagingArea::'), pure=('~WriteOperation::(valid|writeField|deleteField|getField|finalize|cancel)$', '~unsignedIntToBinaryString$'))


def text_of(v):
    return v[2] if v[0] == 'call' and v[1].endswith('unsignedIntToBinaryString') and len(v) == 3 else None


@rule('S03', 'deque', 'items of a deque occupy exactly the positions between its two ends')
def s03_deque(cx):
    L, Rr = ('e', 'quarkdb::Direction::kLeft'), ('e', 'quarkdb::Direction::kRight')
    ev = cx.p.enumval
    cx.ob(ev.get(L[1]) == -1 and ev.get(Rr[1]) == 1, 'Direction', 'left is -1, right is 1')
    kd = 'quarkdb::KeyDescriptor::'

    def fld(base, n):
        return Engine.project(Engine.project(base, KI), kd + n)

    def norm(v, op, p):
        """fields read off the operation at whatever point, unchanged since it was opened, read as found"""
        base = [e.val for e in p.events if e.kind == 'write' and e.loc == op.loc]
        ctor = ctor_of.get(op.loc)

        def go(x):
            if not isinstance(x, tuple):
                return x
            if x[:1] == ('.',) and len(x) == 3 and isinstance(x[2], str) and x[2].startswith(kd):
                y = x[1]
                if y[:1] == ('.',) and y[2] == KI and y[1][:1] in (('hav',), ('ctor',)) and (y[1][0] == 'ctor' or y[1][2] == op.loc):
                    return ('found', short(x[2]))
            if x[:1] == ('hav',) and x[2][:1] == ('f',) and x[2][1][:1] == ('f',) and x[2][1][2] == KI and x[2][1][1] == op.loc:
                return x
            if x[:1] == ('lin',):
                r = C(x[1])
                for t, k in x[2]:
                    t = go(t)
                    for _ in range(abs(k)):
                        r = add(r, t) if k > 0 else sub(r, t)
                return r
            return tuple(go(y) for y in x)
        return go(v)
    ctor_of = {}
    START, END, SZ = ('found', 'startIndex'), ('found', 'endIndex'), ('found', 'sz')

    def facts_of(p, op, F):
        G = F
        for t in list(F.all()):
            op_, terms, c = t
            r = C(0)
            for x, k in terms:
                y = norm(x, op, p)
                for _ in range(min(abs(k), 4)):
                    r = add(r, y) if k > 0 else sub(r, y)
            r = sub(r, C(c))
            u = {'eq': eq, 'ne': ne, 'le': le, 'ge': ge}[op_](r, ZERO) if op_ in ('eq', 'ne', 'le', 'ge') else None
            if u is not None and u is not True and u is not False:
                w = G.with_(u)
                if w:
                    G = w[0]
        return G

    def dirs(F, d):
        if F.entails(eq(d, L)):
            return L
        if F.entails(ne(d, L)) or F.entails(eq(d, Rr)):
            return Rr
        return None

    def walk_(cx, s, p, op, F, e, first, step, d, left):
        """the positions e touches, one per turn: from first, by step. returns the position after the last turn"""
        w = text_of(norm(e.args[0], op, p))
        if w is None or len(e.loops) != 1:
            cx.ob(False, s, 'positions are counted', e.where(), p)
            return None
        m = loop_maps(p, e.loops[0], e)
        if m is None:
            return None
        ent, nxt, fin = [{norm(a, op, p): norm(b, op, p) for a, b in x.items()} for x in m]
        w0, w1, w2 = replaced_lin(w, ent), replaced_lin(w, nxt), replaced_lin(w, fin)
        one = (d,) if left is None else (d, C(-1) if left else C(1))
        cx.ob(same_sum(F, w0, first, d), s, 'the first item is at the end of the list', e.where(), p)
        cx.ob(any(same_sum(F, w1, add(w, x), d) for x in ((C(1),) if step == 1 else one)), s, 'one item per position', e.where(), p)
        return w2

    f = cx.fn(S + 'dequePush')
    d = P(f, 1)
    seen = set()
    for p in cx.paths(f, **DEQ):
        if p.outcome != 'return':
            continue
        for op in ops(p):
            fin = op.of(('finalize',))
            if not fin:
                continue
            s = 'dequePush'
            F = facts_of(p, op, p.facts)
            side = dirs(F, d)
            if side is None:
                cx.ob(False, s, 'the side is told', None, p)
                continue
            mine, other = (START, END) if side == L else (END, START)
            names, left = indexes(p, op)
            now = {k: norm(v, op, p) for k, v in left.items()}
            here, there = (now['start'], now['end']) if side == L else (now['end'], now['start'])
            ww = op.of(('writeField',))
            one = C(-1) if side == L else C(1)
            cx.ob(not op.of(('deleteField',)) and len(ww) <= 1, s, 'pushing only adds', None, p)
            size = norm(fin[0].args[0], op, p)
            if ww:
                seen.add((side, 'items'))
                nextp = walk_(cx, s, p, op, F, ww[0], mine, 0, d, side == L)
                if nextp is None:
                    continue
                cx.ob(same_sum(F, here, nextp, d), s, 'the end moves past the last item', None, p)
                m = loop_maps(p, ww[0].loops[0], ww[0])
                back = {norm(b, op, p): norm(a, op, p) for a, b in m[2].items()}
                c = replaced_lin(size, back)
                ent, nxt = [{norm(a, op, p): norm(b, op, p) for a, b in x.items()} for x in m[:2]]
                cx.ob(same_sum(F, replaced_lin(c, ent), SZ, d) and same_sum(F, replaced_lin(c, nxt), add(c, C(1)), d), s, 'the size grows by the number of items', fin[0].where(), p)
                v = ww[0].args[1]
                b = [x for x in m[0] if contains_term(v, x) and F.entails(eq(m[0][x], P(f, 3)))] or [x for x in m[0] if contains_term(v, x) and m[0][x] == P(f, 3)]
                cx.ob(bool(b) and stepped(b[0], m[1].get(b[0], b[0])), s, 'every item is stored, in order', ww[0].where(), p)
            else:
                cx.ob(same_sum(F, here, mine, d) and same_sum(F, size, SZ, d), s, 'pushing nothing changes nothing', None, p)
            if F.entails(eq(SZ, ZERO)):
                seen.add((side, 'empty'))
                cx.ob(any(same_sum(F, there, sub(mine, x), d) for x in (d, one)), s, 'the other end of an empty list is one before the first item', None, p)
            else:
                cx.ob(F.entails(ne(SZ, ZERO)) and same_sum(F, there, other, d), s, 'the other end stays', None, p)
            cx.ob(same_sum(F, norm(p.final(('var', f['params'][5]['id'], 0)), op, p), size, d), s, 'answers the new size', None, p)
    cx.ob(len(seen) == 4, 'dequePush', 'both sides, empty and not')

    f = cx.fn(S + 'dequePop')
    d = P(f, 1)
    seen = set()
    for p in cx.paths(f, **DEQ):
        if p.outcome != 'return':
            continue
        for op in ops(p):
            fin = op.of(ENDS)
            if not fin:
                continue
            s = 'dequePop'
            F = facts_of(p, op, p.facts)
            names, left = indexes(p, op)
            now = {k: norm(v, op, p) for k, v in left.items()}
            gone = op.of(('deleteField',))
            if F.entails(eq(SZ, ZERO)):
                seen.add('empty')
                cx.ob(not gone and not op.of(('writeField',)), s, 'nothing is taken from an empty list', None, p)
                cx.ob(short(fin[0].name) == 'cancel' or F.entails(eq(norm(fin[0].args[0], op, p), ZERO)), s, 'an empty list stays empty', None, p)
                cx.ob(any(e.ret == p.val for e in p.calls('rocksdb::Status::NotFound')), s, 'an empty list answers that there is nothing', None, p)
                continue
            side = dirs(F, d)
            if side is None:
                cx.ob(False, s, 'the side is told', None, p)
                continue
            seen.add(side)
            mine, other = (START, END) if side == L else (END, START)
            here, there = (now['start'], now['end']) if side == L else (now['end'], now['start'])
            one = C(-1) if side == L else C(1)
            want = [sub(mine, d), sub(mine, one)]
            pos = text_of(norm(gone[0].args[0], op, p)) if len(gone) == 1 else None
            cx.ob(pos is not None and any(same_sum(F, pos, w, d) for w in want), s, 'the item at the end is taken', None, p)
            cx.ob(any(same_sum(F, here, w, d) for w in want) and same_sum(F, there, other, d), s, 'the end moves to where the item was, the other end stays', None, p)
            cx.ob(short(fin[0].name) == 'finalize' and same_sum(F, norm(fin[0].args[0], op, p), sub(SZ, C(1)), d), s, 'one item less', fin[0].where(), p)
            got = [e for e in op.of(('getField',)) if e.n < gone[0].n and e.args[0] == gone[0].args[0]] if gone else []
            cx.ob(bool(got) and p.final(('var', f['params'][3]['id'], 0)) == outv(got[0], 1), s, 'answers the item taken', None, p)
    cx.ob(len(seen) == 3, 'dequePop', 'both sides, and an empty list')

    f = cx.fn(S + 'dequeTrimFront', 4, lambda g: on_area(g))
    seen = set()
    for p in cx.paths(f, **DEQ):
        if p.outcome != 'return':
            continue
        s = 'dequeTrimFront'
        parsed = p.calls('~ParseUtils::parseInt64$')
        if parsed:
            fine = (ne(result(parsed[0]), ZERO), ge(outv(parsed[0], 1), ZERO))
            if not ops(p):
                cx.ob(not possible(p.facts, *fine), s, 'only what is no number, or negative, is refused', None, p)
            else:
                cx.ob(all(p.facts.entails(x) for x in fine), s, 'what is no number, or negative, is refused', None, p)
        for op in ops(p):
            fin = op.of(ENDS)
            if not fin:
                continue
            F = facts_of(p, op, p.facts)
            names, left = indexes(p, op)
            now = {k: norm(v, op, p) for k, v in left.items()}
            parsed = p.calls('~ParseUtils::parseInt64$')
            cx.ob(len(parsed) == 1 and parsed[0].args[0] == P(f, 2), s, 'how many to keep is read', None, p)
            if len(parsed) != 1:
                continue
            keep = outv(parsed[0], 1)
            out = norm(p.final(('var', f['params'][3]['id'], 0)), op, p)
            gone = op.of(('deleteField',))
            if short(fin[0].name) == 'cancel' or not gone:
                seen.add('none')
                cx.ob(F.entails(le(SZ, keep)) and F.entails(eq(out, ZERO)), s, 'nothing is removed only if the list is short enough', None, p)
                continue
            seen.add('some')
            cx.ob(len(gone) == 1 and not op.of(('writeField',)), s, 'trimming only removes', None, p)
            n = sub(SZ, keep)
            cx.ob(F.entails(ge(n, C(1))), s, 'a list short enough is left alone', None, p)
            nextp = walk_(cx, s, p, op, F, gone[0], add(START, C(1)), 1, C(1), None)
            if nextp is None:
                continue
            w = text_of(norm(gone[0].args[0], op, p))
            B = facts_of(p, op, gone[0].facts)
            cx.ob(B.entails(le(w, add(START, n))), s, 'no more than asked for is removed', gone[0].where(), p)
            cx.ob(F.entails(ge(nextp, add(START, add(n, C(1))))), s, 'all that was asked for is removed', gone[0].where(), p)
            cx.ob(F.entails(eq(now['start'], add(START, n))) and same_sum(F, now['end'], END, C(1)), s, 'the start moves past what was removed, the end stays', None, p)
            cx.ob(F.entails(eq(norm(fin[0].args[0], op, p), keep)), s, 'what was asked for is kept', fin[0].where(), p)
            cx.ob(F.entails(eq(out, n)), s, 'answers the number removed', None, p)
    cx.ob(len(seen) == 2, 'dequeTrimFront', 'both')


def replaced_lin(v, m):
    """v with the terms of m replaced, in sums and in the products of sums"""
    if v in m:
        return m[v]
    c, ts = to_lin(v)
    r = C(c)
    for t, k in ts.items():
        if t in m:
            t = m[t]
        elif t[:2] == ('op', '*'):
            t = ('op', '*', replaced_lin(t[2], m), replaced_lin(t[3], m))
            if t[2] == ZERO or t[3] == ZERO:
                t = ZERO
            elif t[2] == C(1):
                t = t[3]
            elif t[3] == C(1):
                t = t[2]
        for _ in range(abs(k)):
            r = add(r, t) if k > 0 else sub(r, t)
    return r


@rule('S03', 'wiped', 'deleting a key leaves nothing of it behind')
def s03_wiped(cx):
    GT, EM = 'quarkdb::KeyDescriptor::getKeyType', 'quarkdb::KeyDescriptor::empty'
    f = cx.fn(S + 'del', pred=on_area)
    s = 'del'
    wipes = {'kHash': ['FieldLocator'], 'kSet': ['FieldLocator'], 'kDeque': ['FieldLocator'], 'kVersionedHash': ['FieldLocator'], 'kLocalityHash': ['LocalityFieldLocator', 'LocalityIndexLocator'], 'kString': [], 'kLease': []}
    seen = set()
    rev = 'quarkdb::VersionedHashRevisionTracker::'
    for p in cx.paths(f, opaque=('~StagingArea::(?!getRevisionTracker)', S + 'lockKeyDescriptor', '~StateMachine::lease_release$', '~StateMachine::remove_all_with_prefix$', rev + 'erase', rev + 'clear', '~ExpirationEventCache::'), pure=('~Locator::', GT, EM, 'quarkdb::KeyDescriptor::getSize')):
        if p.outcome not in ('return', 'loop'):
            continue
        for d in p.calls(S + 'lockKeyDescriptor'):
            k = ('call', GT, result(d))
            if not (d.args[-1][0] == 'ctor' and short(d.args[-1][1]) == 'DescriptorLocator'):
                cx.ob(False, s, 'the description of the key is looked up', d.where(), p)
                continue
            key = d.args[-1][2][0]
            F = p.facts
            turn = [e for e in p.events if e.n > d.n and d.loops and e.loops[:len(d.loops)] == d.loops]
            turn = [e for e in turn if not [x for x in loop_events(p, d.loops[-1]) if x.info == 'iterend' and d.n < x.n < e.n]] if d.loops else []
            calls = [e for e in turn if e.kind == 'call']
            gone = [e for e in calls if match(e.name, ('~StagingArea::(del|singleDelete)$',))]
            ra = [e for e in calls if match(e.name, ('~remove_all_with_prefix$',))]
            rel = [e for e in calls if match(e.name, ('~lease_release$',))]
            end = [x for x in loop_events(p, d.loops[-1]) if x.info == 'iterend' and x.n > d.n] if d.loops else []
            cx.ob(bool(d.loops), s, 'every key given is deleted', d.where(), p)
            if not end:
                continue
            beg = [x for x in loop_events(p, d.loops[-1]) if x.info == 'begin' and x.n < d.n]
            cnt = []
            for v, b, c in end[0].args:
                st = [y for w, _, y in beg[-1].args if w == v]
                if v == ('c', f['params'][3]['id']) or v == ('var', f['params'][3]['id'], 0):
                    cnt.append(sub(c, b))
            if F.entails(ne(('call', EM, result(d)), ZERO)):
                seen.add(None)
                cx.ob(not gone and not ra and not rel, s, 'an absent key is left alone', d.where(), p)
                continue
            t = [x for x in wipes if F.entails(eq(k, T(x)))]
            grp = [x for x in wipes if not F.entails(ne(k, T(x)))]
            todo = t or grp
            want = {tuple(wipes[x]) for x in todo}
            cx.ob(len(want) == 1 and (todo[0] in ('kString', 'kLease')) == all(x in ('kString', 'kLease') for x in todo), s, 'every type is told apart', d.where(), p)
            if len(want) != 1:
                continue
            seen.update(todo)
            locs = [locator(e.args[0]) for e in ra]
            ok = sorted(str(c) for c, a in locs) == sorted(list(want)[0])
            for c, a in locs:
                if c == 'FieldLocator':
                    ok = ok and a[1] == key and len(a) == 2 and (a[0] == k or F.eqv(a[0], k))
                else:
                    ok = ok and a == (key,)
            cx.ob(ok, s, 'all fields are removed', d.where(), p)
            for e in ra:
                n = ('call', 'quarkdb::KeyDescriptor::getSize', result(d))
                cx.ob(F.entails(eq(outv(e, 1), n)), s, 'as many as the recorded size', e.where(), p)
            gl = [locator(e.args[0]) for e in gone]
            if 'kString' in todo:
                cx.ob(('StringLocator', (key,)) in gl, s, 'the value is removed', d.where(), p)
            if 'kLease' in todo:
                cx.ob(len(rel) == 1 and rel[0].args[1] == key, s, 'the lease is released', d.where(), p)
            dl = outv(d, 1)
            cx.ob(any(c == 'DescriptorLocator' and a == (key,) for c, a in gl) or any(e.args[0] == ('call', 'quarkdb::DescriptorLocator::toView', dl) for e in gone), s, 'the description is removed', d.where(), p)
            cx.ob(len(cnt) == 1 and cnt[0] == C(1), s, 'every key removed is counted', d.where(), p)
    cx.ob(seen == set(wipes) | {None}, s, 'all types, and absent keys')
    f = cx.fn(S + 'flushall', pred=on_area)
    for p in cx.paths(f, opaque=('~StagingArea::(?!getRevisionTracker)', '~StateMachine::remove_all_with_prefix$', rev + 'clear', '~ExpirationEventCache::')):
        if p.outcome == 'return':
            ra = p.calls('~remove_all_with_prefix$')
            cx.ob(len(ra) == 1 and ra[0].args[0] == ('s', ''), 'flushall', 'everything is removed', None, p)


@rule('S11', 'dropped', 'a hash that is deleted takes its pending updates along, and deleting nothing is no update')
def s11_dropped(cx):
    GT, EM = 'quarkdb::KeyDescriptor::getKeyType', 'quarkdb::KeyDescriptor::empty'
    rev = 'quarkdb::VersionedHashRevisionTracker::'
    f = cx.fn(S + 'del', pred=on_area)
    n = 0
    for p in cx.paths(f, opaque=('~StagingArea::(?!getRevisionTracker)', S + 'lockKeyDescriptor', '~StateMachine::lease_release$', '~StateMachine::remove_all_with_prefix$', rev + 'erase', rev + 'clear', '~ExpirationEventCache::'), pure=('~Locator::', GT, EM, 'quarkdb::KeyDescriptor::getSize')):
        if p.outcome not in ('return', 'loop'):
            continue
        er = p.calls(rev + 'erase', rev + 'clear')
        for d in p.calls(S + 'lockKeyDescriptor'):
            if d.args[-1][0] != 'ctor':
                continue
            key = d.args[-1][2][0]
            mine = [e for e in er if short(e.name) == 'erase' and e.n > d.n and e.args[0] == key]
            if p.facts.entails(ne(('call', EM, result(d)), ZERO)):
                cx.ob(not er, 'del', 'deleting nothing keeps pending updates', d.where(), p)
            elif not possible(p.facts, ne(('call', GT, result(d)), T('kVersionedHash'))) or not p.facts.entails(ne(('call', GT, result(d)), T('kVersionedHash'))):
                n += 1
                cx.ob(bool(mine), 'del', 'a deleted hash drops its pending updates', d.where(), p)
            cx.ob(len(er) == len(mine), 'del', 'other hashes keep theirs', d.where(), p)
    cx.ob(n > 0, 'del', 'drops')
    f = cx.fn(S + 'flushall', pred=on_area)
    for p in cx.paths(f, opaque=('~StagingArea::(?!getRevisionTracker)', '~StateMachine::remove_all_with_prefix$', rev + 'clear', '~ExpirationEventCache::')):
        if p.outcome == 'return':
            cx.ob(len(p.calls(rev + 'clear')) == 1, 'flushall', 'pending updates are dropped with all keys', None, p)
    for m, call in (('erase', 'erase'), ('clear', 'clear')):
        f = cx.fn(rev + m)
        for p in returns(cx.paths(f)):
            v = p.final(thisloc(rev + 'contents'))
            x = this(rev + 'contents')
            if m == 'clear':
                cx.ob(p.facts.entails(eq(size(v), ZERO)) or v[:2] == ('mut', 'std::map::clear') or v[:1] == ('mut',) and v[1].endswith('::clear') or v[:1] == ('ctor',) and v[2] == (), m, 'forgets all', f['file'], p)
            else:
                cx.ob(v[:1] == ('mut',) and v[1].endswith('::erase') and v[2] == x and v[3] == (P(f, 0),), m, 'forgets the hash given', f['file'], p)
    f = cx.fn(S + 'vhdel', pred=on_area)
    k = 0
    for p in cx.paths(f, opaque=OPQ, pure=PURE):
        if p.outcome != 'return' or wrong(p):
            continue
        for o in ops(p):
            dels = [e for e in o.of(DELS)]
            up = p.calls('~VersionedHashRevision::addUpdate$')
            ends = o.of(ENDS)
            if ends and short(ends[0].name) == 'cancel' or dels and all(p.facts.entails(eq(result(e), ZERO)) for e in dels) and not [e for e in dels if e.loops]:
                k += 1
                cx.ob(not up or all(e.loops for e in up), 'vhdel', 'removing nothing is no update', None, p)
    cx.ob(k > 0, 'vhdel', 'may remove nothing')
