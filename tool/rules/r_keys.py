"""Storage locations and key descriptors: S04, S05."""
from qdb.common import *

SB = 'quarkdb::SmartBuffer::'
ESC = 'quarkdb::appendEscapedString'
CNT = 'quarkdb::StringUtils::countOccurences'
OP = tuple(SB + x for x in ('resize', 'shrink', 'expand')) + (ESC, CNT)
PU = tuple(SB + x for x in ('data', 'size', 'toView', 'toString')) + (CNT,)
HASH = C(35)
BAR = C(124)

#          class               first byte(s)      parts after them
LOC = {'DescriptorLocator': [('m', 1), ('raw', 0)],
       'StringLocator': [('m', 1), ('raw', 0)],
       'LeaseLocator': [('m', 1), ('raw', 0)],
       'ConfigurationLocator': [('m', 1), ('raw', 0)],
       'ExpirationEventLocator': [('m', 1), ('int', 0), ('raw', 1)],
       'FieldLocator': [('m', 1), ('esc', 1), ('raw', 2)],
       'LocalityFieldLocator': [('m', 1), ('esc', 0), ('m', 1), ('esc', 1), ('raw', 2)],
       'LocalityIndexLocator': [('m', 1), ('esc', 0), ('m', 1), ('raw', 1)]}


def kpaths(cx, f):
    return cx.paths(f, opaque=OP, pure=PU)


def base_off(v):
    """offset of a position inside the key buffer, or None"""
    c, t = to_lin(v)
    rest = {}
    seen = False
    for k, x in t.items():
        if k[0] == 'call' and k[1] == SB + 'data' and x == 1:
            seen = True
        else:
            rest[k] = x
    return from_lin(c, rest) if seen else None


class Lay:
    """what a path leaves in the key buffer: consecutive parts (start, end, kind, data)"""
    def __init__(self, p, start=None):
        self.size = start
        self.parts = []
        self.sub = {}
        self.err = None
        if start is not None:
            self.parts.append((ZERO, start, 'old', None))
        for e in p.events:
            if e.kind == 'call' and e.name in (SB + 'resize', SB + 'shrink', SB + 'expand'):
                n = self.res(e.args[0])
                if e.name.endswith('resize'):
                    self.parts = []
                elif e.name.endswith('shrink'):
                    if start is None and self.size is None:
                        self.parts = [(ZERO, n, 'old', None)]
                    keep = [q for q in self.parts if not (q[0] == n or self.nonneg(sub(q[0], n)))]
                    if keep and sorted(keep, key=lambda q: q[1] != n)[0][1] != n:
                        self.err = self.err or 'shrinks into the middle of a part'
                    self.parts = keep
                else:
                    if self.size is None or not self.nonneg(sub(n, self.size)):
                        self.err = self.err or 'expands to a smaller size'
                self.size = n
            elif e.kind == 'call' and e.name == ESC:
                o = self.res(e.args[1])
                end = add(add(add(o, size(e.args[2])), ('call', CNT, e.args[2], HASH)), C(2))
                self.sub[e.ret] = end
                self.parts.append((o, end, 'esc', e.args[2]))
            elif e.kind == 'call' and e.name in ('memcpy', 'std::memcpy', 'memmove'):
                o = base_off(e.args[0])
                if o is not None:
                    n = e.args[2]
                    src = e.args[1]
                    good = is_call(src, 'data') and n == size(src[2])
                    self.parts.append((self.res(o), self.res(add(o, n)), 'raw' if good else 'part', src[2] if good else src))
            elif e.kind == 'call' and e.name in INTW and len(e.args) == 2:
                o = base_off(e.args[1])
                if o is not None:
                    self.parts.append((self.res(o), self.res(add(o, C(8))), 'int', e.args[0]))
            elif e.kind == 'write' and e.loc[0] == 'ix' and e.loc[1][0] == 'd' and base_off(e.loc[1][1]) is not None:
                o = self.res(add(base_off(e.loc[1][1]), e.loc[2]))
                self.parts.append((o, add(o, C(1)), 'm', e.val))
            elif e.kind == 'write' and e.loc[0] == 'd' and base_off(e.loc[1]) is not None:
                o = self.res(base_off(e.loc[1]))
                if e.val[0] == 'bytes':
                    be = is_call(e.val[1], *SWAP)
                    self.parts.append((o, self.res(add(o, e.val[2])), 'int' if be and e.val[2] == C(8) else 'part', e.val[1][2] if be else e.val[1]))
                elif e.val[0] == 'load':
                    pass   # the value of a memcpy above
                else:
                    self.err = self.err or 'writes something unknown into the key'
        self.parts.sort(key=lambda q: len(repr(q[0])))

    def res(self, v):
        for _ in range(6):
            c, t = to_lin(v)
            hit = [k for k in t if k in self.sub]
            if not hit:
                return v
            for k in hit:
                x = t.pop(k)
                v = from_lin(c, t)
                for _ in range(abs(x)):
                    v = add(v, self.sub[k], 1 if x > 0 else -1)
                c, t = to_lin(v)
        return v

    def nonneg(self, v):
        c, t = to_lin(v)
        return c >= 0 and all(x >= 0 for x in t.values())

    def seq(self):
        """the parts in order, or None when they overlap, leave gaps or do not fill the buffer"""
        if self.err or self.size is None:
            return None
        left = list(self.parts)
        out = []
        at = ZERO
        while left:
            nxt = [q for q in left if q[0] == at]
            if len(nxt) != 1:
                # a zero-length part cannot be told from its successor by its start: none of ours has one
                return None
            out.append(nxt[0])
            left.remove(nxt[0])
            at = nxt[0][1]
        return out if at == self.size else None


def ctors(cx, cls):
    return [f for f in cx.fns(cls + '::' + cls.split('::')[-1]) if f.get('acc') == 'public'] if hasattr(cx, 'fns') else [f for f in cx.p.fns(cls + '::' + cls.split('::')[-1]) if f.get('acc') == 'public']


@rule('S04', 'layout', 'every location is its markers, then its names: each name but the last escaped and terminated, the parts adjacent and filling the buffer exactly')
def s04_layout(cx):
    marks = {}
    for cls, spec in LOC.items():
        fs = [f for f in ctors(cx, 'quarkdb::' + cls) if f['params'] and 'Locator' not in f['params'][0]['t']]
        cx.need(fs, 'constructors of ' + cls)
        full = max(len(f['params']) for f in fs)
        for f in fs:
            s = cls + '/%d' % len(f['params'])
            n = 0
            for p in kpaths(cx, f):
                if p.outcome != 'return':
                    continue
                n += 1
                lay = Lay(p)
                seq = lay.seq()
                cx.ob(seq is not None, s, 'the parts are adjacent and fill the buffer exactly' + (': ' + lay.err if lay.err else ''), f['file'], p)
                if seq is None:
                    continue
                want = spec
                if len(f['params']) < full:
                    # a constructor for a prefix: drop the parts of the missing names
                    want = [w for w in spec if w[0] == 'm' or w[1] < len(f['params'])]
                cx.ob(len(seq) == len(want), s, 'the location has the expected parts', f['file'], p)
                ms = []
                for q, w in zip(seq, want):
                    if w[0] == 'm':
                        v = q[3]
                        cx.ob(q[2] == 'm' and (v[0] in ('e', 'c') or v == P(f, 0)), s, 'the marker is a constant or the type given', f['file'], p)
                        ms.append(v)
                    else:
                        cx.ob(q[2] == w[0] and q[3] == P(f, w[1]), s, {'esc': 'a name that is not the last is escaped', 'raw': 'the last name is stored as it is', 'int': 'the clock is stored most significant byte first'}[w[0]], f['file'], p)
                if len(f['params']) == full:
                    if cls == 'FieldLocator':
                        for v in [('e', k) for k in cx.p.enumval if k.startswith('quarkdb::KeyType::')]:
                            if not p.facts.refutes(eq(P(f, 0), v)):
                                marks.setdefault((cls, v[1].split('::')[-1]), set()).add((cval(cx, v),))
                    else:
                        marks.setdefault((cls, ''), set()).add(tuple(cval(cx, v) for v in ms))
                    tv = ('call', SB + 'toView',)
            cx.ob(n > 0, s, 'the location can be built', f['file'])
        views(cx, cls)
    flat = []
    for k, v in marks.items():
        cx.ob(len(v) == 1 and None not in list(v)[0], k[0], 'its markers are fixed', 'storage/KeyLocators.hh')
        flat += [(k, x) for x in v]
    used = [x for _, x in flat]
    for k, x in flat:
        clash = [k2 for k2, y in flat if k2 != k and (x[:len(y)] == y or y[:len(x)] == x)]
        cx.ob(not clash, k[0] + k[1], 'no other kind of location starts with its markers', 'storage/KeyLocators.hh')
    und = cx.p.enumval.get('quarkdb::InternalKeyType::kInternal')
    int_codec(cx)
    cx.need(und is not None, 'InternalKeyType::kInternal')
    cx.ob(all(x[0] != und for x in used), 'InternalKeyType::kInternal', 'internal keys have their own first byte', 'storage/KeyLocators.hh')
    for nm in ('kStateMachine_Format', 'kStateMachine_LastApplied', 'kStateMachine_InBulkload', 'kStateMachine_Clock'):
        v = const_str(cx, 'quarkdb::KeyConstants::' + nm)
        cx.ob(ord(v[0]) == und, nm, 'internal keys start with the internal marker', 'storage/KeyConstants.hh')


def view_of(v):
    """length of a view of the start of the key buffer"""
    if v is not None and v[0] == 'ctor' and len(v[2]) == 2 and base_off(v[2][0]) == ZERO:
        return v[2][1]
    return None


def cval(cx, v):
    if v[0] == 'e':
        return cx.p.enumval.get(v[1])
    return v[1] if v[0] == 'c' else None


def views(cx, cls):
    for m in ('toView', 'toString'):
        for f in cx.p.fns('quarkdb::%s::%s' % (cls, m)):
            for p in kpaths(cx, f):
                v = p.val
                cx.ob(v is not None and is_call(v, SB + m) and last_field(p.calls(SB + m)[0].objloc or NULL) == 'quarkdb::%s::keyBuffer' % cls, cls, 'the location read back is the whole buffer', f['file'], p)


RESET = [('FieldLocator', 'resetField', 'keyPrefixSize', [('raw', 0)], None),
         ('LocalityFieldLocator', 'resetHint', 'keyPrefixSize', [('esc', 0)], 'localityPrefixSize'),
         ('LocalityFieldLocator', 'resetField', 'localityPrefixSize', [('raw', 0)], None),
         ('LocalityIndexLocator', 'resetField', 'keyPrefixSize', [('raw', 0)], None)]


@rule('S04', 'reuse', 'reusing a location for another field keeps exactly the prefix built for its key, and a prefix is the position where the name after it starts')
def s04_reuse(cx):
    for cls, m, anchor, want, sets in RESET:
        f = cx.fn('quarkdb::%s::%s' % (cls, m))
        a = this('quarkdb::%s::%s' % (cls, anchor))
        s = cls + '::' + m
        for p in kpaths(cx, f):
            if p.outcome != 'return':
                continue
            lay = Lay(p)
            seq = lay.seq()
            cx.ob(seq is not None and len(seq) == 1 + len(want) and seq[0][2] == 'old' and seq[0][1] == a, s, 'what is kept is the prefix, and the rest is filled exactly', f['file'], p)
            if seq and len(seq) == 1 + len(want):
                for q, w in zip(seq[1:], want):
                    cx.ob(q[2] == w[0] and q[3] == P(f, w[1]), s, 'the new name follows the prefix', f['file'], p)
            if sets:
                cx.ob(lay.res(p.final(thisloc('quarkdb::%s::%s' % (cls, sets)))) == lay.size, s, 'the new prefix ends where the escaped name ends', f['file'], p)
            cx.ob(p.final(thisloc('quarkdb::%s::%s' % (cls, anchor))) == a, s, 'the prefix itself is unchanged', f['file'], p)
    for cls in ('FieldLocator', 'LocalityFieldLocator', 'LocalityIndexLocator'):
        f = cx.fn('quarkdb::%s::resetKey' % cls)
        for p in kpaths(cx, f):
            if p.outcome != 'return':
                continue
            lay = Lay(p)
            cx.ob(lay.seq() is not None and lay.res(p.final(thisloc('quarkdb::%s::keyPrefixSize' % cls))) == lay.size, cls + '::resetKey', 'the prefix of a key is everything written for it', f['file'], p)
            if cls == 'LocalityFieldLocator':
                cx.ob(p.final(thisloc('quarkdb::%s::localityPrefixSize' % cls)) == ZERO, cls + '::resetKey', 'the hint of another key is forgotten', f['file'], p)
    # prefixes handed out for scanning
    f = cx.fn('quarkdb::FieldLocator::getPrefix')
    g = cx.fn('quarkdb::FieldLocator::getPrefixSize')
    a = this('quarkdb::FieldLocator::keyPrefixSize')
    for p in kpaths(cx, f):
        cx.ob(p.val is not None and view_of(p.val) is not None and p.facts.eqv(view_of(p.val), a), 'FieldLocator::getPrefix', 'the scanning prefix is the key prefix', f['file'], p)
    for p in kpaths(cx, g):
        cx.ob(p.val == a, 'FieldLocator::getPrefixSize', 'the scanning prefix is the key prefix', g['file'], p)
    f = cx.fn('quarkdb::LocalityFieldLocator::getPrefix')
    k, l = this('quarkdb::LocalityFieldLocator::keyPrefixSize'), this('quarkdb::LocalityFieldLocator::localityPrefixSize')
    for p in kpaths(cx, f):
        n = view_of(p.val) or NULL
        good = p.facts.eqv(n, l) if p.facts.entails(ne(l, ZERO)) else (p.facts.entails(eq(l, ZERO)) and p.facts.eqv(n, k))
        cx.ob(good, 'LocalityFieldLocator::getPrefix', 'the scanning prefix ends after the hint if there is one, else after the key', f['file'], p)


@rule('S04', 'escape', 'escaping writes every character once, the separator always preceded by the escape character, and ends with a double separator')
def s04_escape(cx):
    f = cx.fn(ESC)
    s = 'appendEscapedString'
    st = P(f, 2)
    seen = set()
    for p in cx.paths(f, pure=(SB + 'data',), extra_inline=(ESC, CNT)):
        ws = [(base_off(e.loc[1][1]), e) for e in p.events if e.kind == 'write' and e.loc[0] == 'ix' and e.loc[1][0] == 'd' and base_off(e.loc[1][1]) is not None]
        ws = [(add(o, e.loc[2]), e.val, e) for o, e in ws]
        lids = {l for e in p.events for l in (e.loops or ())}
        body = [w for w in ws if w[2].loops]
        tail = [w for w in ws if not w[2].loops]
        t0 = P(f, 1)
        if not body:
            cx.ob(p.facts.entails(eq(size(st), ZERO)), s, 'only an empty name writes nothing', f['file'], p)
            at = t0
        else:
            lid = body[0][2].loops[-1]
            first = body[0]
            ent = loop_var(p, lid, first[0])
            cx.ob(ent is not None and ent[0] == t0, s, 'the name is written from the given position on', f['file'], p)
            char = None
            for v in (x[1] for x in body):
                if v[0] in ('[]', 'ix', 'idx') or (v[0] == 'call' and v[1] in ('[]', 'at')):
                    char = v
            lits = [l for l in body[-1][2].facts.all()]
            c = elem_at(p, lid, st)
            if c is None:
                cx.ob(False, s, 'the name is read character by character', f['file'], p)
                continue
            ch, idx = c
            cx.ob(covers(p, body[0][2], idx, ZERO, size(st)), s, 'every character is visited once', f['file'], p)
            fa = body[-1][2].facts
            if fa.entails(eq(ch, HASH)):
                seen.add('hash')
                want = [(first[0], BAR), (add(first[0], C(1)), HASH)]
                got = [(o, HASH if v == ch else v) for o, v, _ in body]
                cx.ob(sorted(got, key=repr) == sorted(want, key=repr) and ent and p_step(ent, first[0], 2), s, 'a separator becomes the escape character and the separator', f['file'], p)
            else:
                cx.ob(fa.entails(ne(ch, HASH)), s, 'whether a character is the separator is decided', f['file'], p)
                seen.add('plain')
                cx.ob([(o, v) for o, v, _ in body] == [(first[0], ch)] and ent and p_step(ent, first[0], 1), s, 'any other character is written as it is', f['file'], p)
            at = None
            for e in loop_events(p, lid):
                if e.info == 'exit':
                    for v, _, b in e.args:
                        if v == var_of(p, lid, first[0]):
                            at = b
        cx.ob(at is not None and sorted([(o, v) for o, v, _ in tail], key=repr) == sorted([(at, HASH), (add(at, C(1)), HASH)], key=repr) and p.val == add(at, C(2)), s, 'two separators end the name and the end is reported', f['file'], p)
    cx.ob(seen == {'hash', 'plain'}, s, 'both kinds of characters are handled', f['file'])
    # the escape character itself must be escaped too, or two names can collide
    cx.ob('bar' in seen, s + ': escape character', "the escape character '|' inside a name is itself escaped", 'storage/KeyLocators.hh')
    g = cx.fn(CNT)
    kinds = set()
    for p in cx.paths(g, extra_inline=(CNT,)):
        evs = [e for e in p.events if e.kind == 'loop']
        if any(e.info == 'zero' for e in evs):
            cx.ob(p.val == ZERO and p.facts.entails(eq(size(P(g, 0)), ZERO)), 'countOccurences', 'nothing is counted in an empty name', g['file'], p)
            continue
        beg = [e for e in evs if e.info == 'begin'][:1]
        it = [e for e in evs if e.info == 'iterend'][:1]
        if not beg or not it:
            cx.ob(False, 'countOccurences', 'the count goes over the name', g['file'], p)
            continue
        lid = beg[0].val[1]
        c = elem_at(p, lid, P(g, 0))
        ex = [e for e in evs if e.info == 'exit']
        var = [v for e in ex for v, _, b in e.args if b == p.val]
        dl = [sub(b, a) for v, a, b in it[0].args if var and v == var[0]]
        ent = [a for v, a, b in beg[0].args if var and v == var[0]]
        cx.ob(c is not None and covers(p, it[0], c[1], ZERO, size(P(g, 0))) and ent == [ZERO] and len(dl) == 1, 'countOccurences', 'every character is looked at once', g['file'], p)
        if c and dl:
            hit = eq(c[0], P(g, 1))
            kinds.add(dl[0])
            cx.ob((it[0].facts.entails(hit) and dl[0] == C(1)) or (it[0].facts.refutes(hit) and dl[0] == ZERO), 'countOccurences', 'exactly the occurrences are counted', g['file'], p)
    cx.ob(kinds == {C(1), ZERO}, 'countOccurences', 'both outcomes exist', g['file'])


def var_of(p, lid, val):
    for e in loop_events(p, lid):
        if e.info == 'begin':
            for v, a, b in e.args:
                if b == val:
                    return v


def p_step(ent, cur, n):
    return ent[1] is not None and sub(ent[1], cur) == C(n)


def elem_at(p, lid, st):
    """(element term, index) read from a string inside the loop"""
    out = {}

    def look(v):
        if isinstance(v, tuple):
            if len(v) >= 3 and v[0] in ('[]', 'ix', 'call') and any(x == st for x in v[1:] if isinstance(x, tuple)) and isinstance(v[-1], tuple):
                if v[0] != 'call' or v[1] in ('[]', 'at', 'std::basic_string_view::at', 'std::basic_string_view::operator[]'):
                    out[v] = v[-1]
            for x in v:
                look(x)
    for e in p.events:
        if e.loops and lid in e.loops or (e.kind == 'loop' and e.info == 'iterend'):
            for l in e.facts.all():
                look(l[1])
            if e.val is not None:
                look(e.val)
    cands = [(k, i) for k, i in out.items() if not (i[0] == 'c')]
    return cands[0] if len(cands) == 1 else None


def at(v, i):
    return ('call', '[]', v, i)


@rule('S04', 'decode', 'the boundary between name and field is the first double separator that is not part of an escaped one, and decoding undoes the escaping')
def s04_decode(cx):
    f = cx.fn('quarkdb::extractPrefix')
    s = 'extractPrefix'
    d = P(f, 0)
    n = {2: 0, 3: 0, 'esc': 0, 'plain': 0}
    for p in cx.paths(f):
        evs = [e for e in p.events if e.kind == 'loop']
        beg = [e for e in evs if e.info == 'begin']
        if not beg:
            cx.ob(p.outcome != 'return' or (p.val == ZERO and p.facts.entails(eq(size(d), ZERO))), s, 'nothing is found in nothing', f['file'], p)
            continue
        lid = beg[0].val[1]
        fa = p.facts
        idx = None
        for v, ent, cur in beg[0].args:
            if ent == ZERO:
                idx = cur
        if idx is None:
            cx.ob(False, s, 'the scan starts at the first character', f['file'], p)
            continue
        ch, nx, pv, n2 = at(d, idx), at(d, add(idx, C(1))), at(d, add(idx, C(-1))), at(d, add(idx, C(2)))
        more2 = AND(lt(add(idx, C(2)), size(d)), eq(n2, HASH))
        isbar = eq(pv, BAR)
        ends = [e for e in evs if e.info == 'iterend']
        if p.outcome == 'return' and p.val != ZERO:
            k = sub(p.val, idx)
            cx.ob(k in (C(2), C(3)) and fa.entails(AND(eq(ch, HASH), eq(nx, HASH))), s, 'a boundary is a double separator and lies behind it', f['file'], p)
            cx.ob(fa.entails(lt(add(idx, C(1)), size(d))), s, 'both separators lie inside the location', f['file'], p)
            if k == C(2):
                n[2] += 1
                cx.ob(fa.entails(tneg(isbar)) or fa.entails(tneg(more2)) or (fa.entails(isbar) and (fa.entails(ne(n2, HASH)) or fa.entails(ge(add(idx, C(2)), size(d))))), s, 'a separator after the escape character is only part of a boundary when no further separator follows', f['file'], p)
                cx.ob(not keywrites(p), s, 'the name is complete at its boundary', f['file'], p)
            else:
                n[3] += 1
                cx.ob(fa.entails(AND(isbar, more2)), s, 'an escaped separator directly before the boundary belongs to the name', f['file'], p)
                cx.ob(replaced(p), s, 'an escaped separator replaces its escape character in the name', f['file'], p)
        elif ends:
            e = ends[0]
            fe = e.facts
            kw = keywrites(p)
            step = [sub(b, a) for v, a, b in e.args if a == idx]
            cx.ob(step == [C(1)] , s, 'the scan visits every character', f['file'], p)
            if fe.entails(ne(ch, HASH)):
                n['plain'] += 1
                cx.ob(len(kw) == 1 and ch in flat(kw[0]) , s, 'any other character is taken over', f['file'], p)
            else:
                n['esc'] += 1
                cx.ob(fe.entails(AND(eq(ch, HASH), isbar, ne(nx, HASH))), s, 'the scan only continues over an escaped separator', f['file'], p)
                cx.ob(replaced(p), s, 'an escaped separator replaces its escape character in the name', f['file'], p)
        elif p.outcome == 'return':
            cx.ob(fa.entails(ge(add(idx, C(1)), size(d))) , s, 'giving up means that the location ended', f['file'], p)
    cx.ob(all(n.values()), s, 'every case is handled', f['file'])

    f = cx.fn('quarkdb::EscapedPrefixExtractor::parse')
    X = 'quarkdb::EscapedPrefixExtractor::'
    s = 'EscapedPrefixExtractor::parse'
    d = P(f, 0)
    k = 0
    for p, b, fx in bool_cases(cx.paths(f, opaque=('quarkdb::extractPrefix',))):
        cx.ob(last_written(p, thisloc(X + 'parsingOk')) == C(b), s, 'accessors work only after a successful parse', f['file'], p)
        cx.ob(p.final(thisloc(X + 'slice')) == d, s, 'the slice parsed is the one given', f['file'], p)
        ex = p.calls('quarkdb::extractPrefix')
        bd = p.final(thisloc(X + 'boundary'))
        if b:
            k += 1
            if ex:
                cx.ob(ex[-1].args[0] == d and bd == result(ex[-1]) and fx.entails(ne(result(ex[-1]), ZERO)), s, 'with escaped separators the full decoder decides', f['file'], p)
                cx.ob(p.final(thisloc(X + 'unescaped')) == ('out', ex[-1].n, 'quarkdb::extractPrefix', 1, ()), s, 'the decoded name is kept', f['file'], p)
            else:
                i = sub(bd, C(1))
                cx.ob(fx.entails(AND(eq(at(d, i), HASH), eq(at(d, sub(i, C(1))), HASH), lt(i, size(d)), ge(i, C(1)))), s, 'without escaped separators the boundary lies behind the first double separator', f['file'], p)
                cx.ob(last_written(p, thisloc(X + 'unescaped')) == ('s', ''), s, 'nothing was unescaped', f['file'], p)
        for e in p.events:
            if e.kind == 'loop' and e.info == 'iterend':
                v = [(a, bb) for _, a, bb in e.args if sub(bb, a) == C(1)]
                cx.ob(bool(v) and any(e.facts.entails(ne(at(d, a), HASH)) or e.facts.entails(AND(ne(at(d, sub(a, C(1))), HASH), ne(at(d, sub(a, C(1))), BAR))) for a, _ in v), s, 'no boundary and no escaped separator is passed over', f['file'], p)
            if e.kind == 'loop' and e.info == 'begin':
                cx.ob(any(a == C(1) for _, a, bb in e.args), s, 'the scan starts at the first pair of characters', f['file'], p)
    cx.ob(k >= 2, s, 'both forms are handled', f['file'])
    sl, bd, un = this(X + 'slice'), this(X + 'boundary'), this(X + 'unescaped')
    okc = ne(this(X + 'parsingOk'), ZERO)
    pre = ('ctor', 'std::string', (('call', 'data', sl), sub(bd, C(2))))
    suf = ('ctor', 'std::string', (add(('call', 'data', sl), bd), sub(size(sl), bd)))
    for m in ('getOriginalPrefix', 'getRawPrefix', 'getRawSuffix', 'getBoundary'):
        g = cx.fn(X + m)
        for p in returns(cx.paths(g)):
            cx.ob(p.facts.entails(okc), 'EscapedPrefixExtractor::' + m, 'only after a successful parse', g['file'], p)
            if m == 'getOriginalPrefix':
                good = p.val == un if p.facts.entails(ne(size(un), ZERO)) else p.facts.entails(eq(size(un), ZERO)) and p.val == pre
            else:
                good = p.val == {'getRawPrefix': pre, 'getRawSuffix': suf, 'getBoundary': bd}[m]
            cx.ob(good, 'EscapedPrefixExtractor::' + m, 'the part handed out lies where the boundary says', g['file'], p)
    R = 'quarkdb::ReverseLocator::'
    f = cx.fn(R + 'ReverseLocator', nparams=1)
    s = 'ReverseLocator::ReverseLocator'
    PT = 'quarkdb::parseKeyType'
    ERR, STR = ('e', 'quarkdb::KeyType::kParseError'), ('e', 'quarkdb::KeyType::kString')
    for p in returns(cx.paths(f, opaque=(X + 'parse', PT), pure=(X + 'getBoundary',))):
        kt = p.final(thisloc(R + 'keyType'))
        pt = p.calls(PT)
        cx.ob(len(pt) == 1 and pt[0].args[0] == at(P(f, 0), ZERO) and p.final(thisloc(R + 'slice')) == P(f, 0), s, 'the type is the first character', f['file'], p)
        pa = p.calls(X + 'parse')
        if not pa:
            cx.ob(bool(pt) and (p.facts.entails(OR(eq(result(pt[0]), ERR), eq(result(pt[0]), STR))) or p.facts.entails(eq(result(pt[0]), ERR)) or p.facts.entails(eq(result(pt[0]), STR))) and kt == result(pt[0]), s, 'only strings have no boundary', f['file'], p)
            continue
        a = pa[0].args[0]
        cx.ob('remove_prefix' in repr(a) and C(1) in flat(a) or is_call(a, 'substr') or is_call(a, 'std::basic_string_view::substr'), s, 'the name starts after the type', f['file'], p)
        if p.facts.entails(eq(result(pa[0]), ZERO)):
            cx.ob(kt == ERR, s, 'a location without boundary is rejected', f['file'], p)
        elif kt != ERR:
            cx.ob(p.facts.entails(ne(result(pa[0]), ZERO)) and kt == result(pt[0]), s, 'a decoded location has the type of its first character', f['file'], p)
    kt, sl, fc = this(R + 'keyType'), this(R + 'slice'), this(R + 'firstChunk')
    acc = {'getOriginalKey': None, 'getField': 'getRawSuffix', 'getRawPrefixUntilBoundary': None, 'isLocalityIndex': None, 'getKeyType': None}
    pures = (X + 'getOriginalPrefix', X + 'getRawSuffix', X + 'getBoundary')
    for m in acc:
        g = cx.fn(R + m)
        for p in returns(cx.paths(g, pure=pures)):
            s = 'ReverseLocator::' + m
            v = p.val
            if m == 'getKeyType':
                cx.ob(v == kt, s, 'the type decoded', g['file'], p)
            elif m == 'getOriginalKey':
                if p.facts.entails(eq(kt, STR)):
                    cx.ob(v == ('ctor', 'std::string', (add(('call', 'data', sl), C(1)), sub(size(sl), C(1)))), s, 'the key of a string is everything after the type', g['file'], p)
                else:
                    cx.ob(p.facts.entails(ne(kt, STR)) and is_call(v, X + 'getOriginalPrefix'), s, 'the key is the decoded name', g['file'], p)
            elif m == 'getField':
                cx.ob(is_call(v, X + 'getRawSuffix') and p.facts.entails(ne(kt, STR)), s, 'the field is what follows the boundary', g['file'], p)
            elif m == 'getRawPrefixUntilBoundary':
                cx.ob(v[0] == 'ctor' and v[2][0] == ('call', 'data', sl) and is_call(sub(v[2][1], C(1)), X + 'getBoundary'), s, 'the raw prefix includes the type and the boundary', g['file'], p)
            elif m == 'isLocalityIndex':
                for b, fx in p.ret_cases():
                    LH, IX = ('e', 'quarkdb::KeyType::kLocalityHash'), ('e', 'quarkdb::InternalLocalityFieldType::kIndex')
                    ch = [x for x in alltuples(fx.all()) if is_call(x, '[]') and is_call(x[2], X + 'getRawSuffix') and x[3] == ZERO] + [x for x in alltuples(fx.all()) if x[0] == 'init' and x[1][0] == 'd' and is_call(x[1][1], 'data')]
                    if b:
                        cx.ob(fx.entails(eq(kt, LH)) and bool(ch) and fx.entails(eq(ch[0], IX)), s, 'only index locations of locality hashes', g['file'], p)
                    else:
                        cx.ob(fx.entails(ne(kt, LH)) or (bool(ch) and fx.entails(ne(ch[0], IX))), s, 'every index location of a locality hash', g['file'], p)


def alltuples(x):
    out = []

    def go(v):
        if isinstance(v, tuple):
            if v and isinstance(v[0], str):
                out.append(v)
            for y in v:
                go(y)
        elif isinstance(v, (list, frozenset, set)):
            for y in v:
                go(y)
    go(x)
    return out


def flat(x):
    return alltuples(x)


def keywrites(p):
    return [e.val for e in p.events if e.kind == 'write' and e.loops and e.val is not None]


def replaced(p):
    """the last character taken over is replaced by a separator"""
    w = [e for e in p.events if e.kind == 'write' and e.loops]
    if len(w) != 1 or w[0].val != HASH:
        return False
    l = w[0].loc
    return l[0] == 'ix' and any(is_call(t, 'size') for t in alltuples(l[2])) and to_lin(l[2])[0] == -1 or (l[0] == 'back') or 'back' in repr(l)


KD = 'quarkdb::KeyDescriptor::'
KT = 'quarkdb::KeyType::'
#         size   fields at offsets
LAYOUT = {'kString': 1, 'kSet': 1, 'kHash': 1, 'kLocalityHash': 1, 'kDeque': 3, 'kLease': 3, 'kVersionedHash': 2}
ITEMS = ('sz', 'startIndex', 'endIndex')


@rule('S05', 'types', 'type characters and type names are exact and distinct')
def s05_types(cx):
    f = cx.fn('quarkdb::parseKeyType')
    vals = {n.split('::')[-1]: v for n, v in cx.p.enumval.items() if n.startswith(KT)}
    cx.need(len(vals) >= 9, 'enumeration KeyType')
    cx.ob(len(set(vals.values())) == len(vals), 'KeyType', 'type characters are distinct', f['file'])
    seen = set()
    for p in returns(cx.paths(f)):
        cx.ob(p.val[0] == 'e', 'parseKeyType', 'a type is returned', f['file'], p)
        n = p.val[1].split('::')[-1]
        c = P(f, 0)
        if n == 'kParseError':
            for k in LAYOUT:
                cx.ob(p.facts.refutes(eq(c, ('e', KT + k))) or p.facts.refutes(eq(c, C(vals[k]))), 'parseKeyType', 'the character of %s is recognised' % k, f['file'], p)
        else:
            seen.add(n)
            cx.ob(n in LAYOUT and (p.facts.entails(eq(c, ('e', KT + n))) or p.facts.entails(eq(c, C(vals.get(n, -1))))), 'parseKeyType', 'a character denotes the type it is the character of', f['file'], p)
    cx.ob(seen == set(LAYOUT), 'parseKeyType', 'every stored type is recognised', f['file'])
    enum_strings(cx, 'quarkdb::keyTypeAsString', 'quarkdb::KeyType', {'kNull': 'none', 'kString': 'string', 'kSet': 'set', 'kHash': 'hash', 'kDeque': 'deque', 'kLocalityHash': 'locality hash', 'kLease': 'lease', 'kVersionedHash': 'versioned hash', 'kParseError': None}, 'keyTypeAsString') if False else None
    g = cx.fn('quarkdb::keyTypeAsString')
    names = {}
    for p in returns(cx.paths(g)):
        for k in vals:
            if p.facts.entails(eq(P(g, 0), ('e', KT + k))):
                names.setdefault(k, set()).add(p.val[1] if p.val[0] == 's' else None)
    want = {'kNull': 'none', 'kString': 'string', 'kSet': 'set', 'kHash': 'hash', 'kDeque': 'deque', 'kLocalityHash': 'locality hash', 'kLease': 'lease', 'kVersionedHash': 'versioned hash'}
    for k, v in want.items():
        cx.ob(names.get(k) == {v}, 'keyTypeAsString', '%s is shown as %s' % (k, v), g['file'])


def storage_items(cx, p, upto=None):
    """{field: offset} for what serialize writes, with the type character"""
    out = {}
    for e in p.calls(*INTW):
        if len(e.args) == 2:
            out.setdefault(off_in(e.args[1]), []).append(e.args[0])
    return out


def off_in(v):
    c, t = to_lin(v)
    return c if all(k[0] == 'call' or k[0] == 'addr' for k in t) and len(t) == 1 else None


@rule('S05', 'layout', 'for every type the encoder and the decoder use the same items at the same positions, and the encoded size is what the decoder insists on')
def s05_layout(cx):
    f = cx.fn(KD + 'KeyDescriptor', nparams=1)
    kt0 = None
    dec = {}
    PT = 'quarkdb::parseKeyType'
    s = 'KeyDescriptor(string)'
    a = P(f, 0)
    for p in cx.paths(f, opaque=(PT,)):
        pt = p.calls(PT)
        if p.outcome != 'return':
            continue
        cx.ob(len(pt) == 1 and pt[0].args[0] == at(a, ZERO), s, 'the type is the first character', f['file'], p)
        cx.ob(p.facts.entails(ge(size(a), C(1))) or p.facts.entails(ne(size(a), ZERO)), s, 'an empty description is rejected', f['file'], p)
        if len(pt) != 1:
            continue
        t = result(pt[0])
        cx.ob(p.final(thisloc(KD + 'keyType')) == t, s, 'the type is kept', f['file'], p)
        ks = [k for k in LAYOUT if p.facts.entails(eq(t, ('e', KT + k)))]
        cx.ob(len(ks) == 1, s, 'only known types are accepted', f['file'], p)
        items = {}
        for fl in ITEMS:
            v = p.final(thisloc(KD + fl))
            if is_call(v, *INTR):
                c, tt = to_lin(v[2])
                items[fl] = c if tt == {('call', 'data', a): 1} else None
        for k in ks:
            cx.ob(dec.setdefault(k, items) == items, s, 'decoding %s does not depend on anything else' % k, f['file'], p)
            n = LAYOUT[k]
            cx.ob(items == {fl: 1 + 8 * i for i, fl in enumerate(ITEMS[:n])}, s, 'the items of %s lie one after the other' % k, f['file'], p)
            cx.ob(p.facts.entails(eq(size(a), C(1 + 8 * n))), s, 'a truncated or overlong %s is rejected' % k, f['file'], p)
            if n == 3:
                cx.ob(p.facts.entails(le(p.final(thisloc(KD + 'startIndex')), p.final(thisloc(KD + 'endIndex')))), s, 'index bounds of %s are in order' % k, f['file'], p)
    cx.ob(set(dec) == set(LAYOUT), s, 'every stored type can be decoded', f['file'])
    g = cx.fn(KD + 'serialize')
    s = 'KeyDescriptor::serialize'
    kt = this(KD + 'keyType')
    enc = set()
    SBF = 'quarkdb::StaticBuffer::'
    for p in returns(cx.paths(g, opaque=(SBF + 'shrink',), pure=(SBF + 'data', SBF + 'toView', SBF + 'operator[]'))):
        ks = [k for k in LAYOUT if p.facts.entails(eq(kt, ('e', KT + k)))]
        cx.ob(len(ks) == 1, s, 'only known types are encoded', g['file'], p)
        items = storage_items(cx, p)
        for k in ks:
            enc.add(k)
            n = LAYOUT[k]
            cx.ob(items == {1 + 8 * i: [this(KD + fl)] for i, fl in enumerate(ITEMS[:n])}, s, 'the items of %s are written one after the other' % k, g['file'], p)
            sh = p.calls(SBF + 'shrink')
            cx.ob(len(sh) == 1 and sh[0].args[0] == C(1 + 8 * n), s, 'the encoded %s is exactly its items' % k, g['file'], p)
            w = [e for e in p.events if e.kind == 'write' and e.val == kt or e.kind == 'write' and e.val is not None and e.val[0] == 'e' and p.facts.entails(eq(e.val, kt))]
            cx.ob(len(w) == 1 and (ZERO in flat(w[0].loc)), s, 'the type character comes first', g['file'], p)
            cx.ob(is_call(p.val, SBF + 'toView'), s, 'what is returned is the buffer', g['file'], p)
            if n == 3:
                cx.ob(p.facts.entails(le(this(KD + 'startIndex'), this(KD + 'endIndex'))), s, 'index bounds of %s are in order' % k, g['file'], p)
    cx.ob(enc == set(LAYOUT), s, 'every stored type can be encoded', g['file'])
    int_codec(cx)


@rule('S05', 'equal', 'two descriptions are equal exactly when type, size and both indices are')
def s05_equal(cx):
    f = cx.fn(KD + 'operator==')
    o = P(f, 0)
    conds = [eq(this(KD + x), Engine.project(o, KD + x)) for x in ('keyType',) + ITEMS]
    for p, b, fx in bool_cases(cx.paths(f)):
        if b:
            cx.ob(all(fx.entails(c) for c in conds), 'KeyDescriptor::operator==', 'equal only when every item is', f['file'], p)
        else:
            cx.ob(any(fx.entails(tneg(c)) for c in conds), 'KeyDescriptor::operator==', 'different only when some item is', f['file'], p)


@rule('S05', 'access', 'every accessor reads or sets the item it names, and only for types that have it')
def s05_access(cx):
    kt = this(KD + 'keyType')
    has = {'sz': None, 'startIndex': ('kDeque', 'kLease', 'kVersionedHash'), 'endIndex': ('kDeque', 'kLease')}
    for fl, m in (('sz', 'Size'), ('startIndex', 'StartIndex'), ('endIndex', 'EndIndex'), ('keyType', 'KeyType')):
        g, st = cx.fn(KD + 'get' + m), cx.fn(KD + 'set' + m)
        for p in returns(cx.paths(g)):
            cx.ob(p.val == this(KD + fl), 'KeyDescriptor::get' + m, 'reads its item', g['file'], p)
            typed(cx, p, kt, has.get(fl), 'KeyDescriptor::get' + m, g)
        for p in returns(cx.paths(st)):
            ws = {e.loc for e in p.events if e.kind == 'write' and loc_fields(e.loc)}
            cx.ob(p.final(thisloc(KD + fl)) == P(st, 0) and ws <= {thisloc(KD + fl)}, 'KeyDescriptor::set' + m, 'sets its item and nothing else', st['file'], p)
            typed(cx, p, kt, has.get(fl), 'KeyDescriptor::set' + m, st)
    L, R = ('e', 'quarkdb::Direction::kLeft'), ('e', 'quarkdb::Direction::kRight')
    g, st, fl = cx.fn(KD + 'getListIndex'), cx.fn(KD + 'setListIndex'), cx.fn('quarkdb::flipDirection')
    for p in returns(cx.paths(g)):
        want = 'startIndex' if p.facts.entails(eq(P(g, 0), L)) else 'endIndex' if p.facts.entails(eq(P(g, 0), R)) else None
        cx.ob(want is not None and p.val == this(KD + want), 'KeyDescriptor::getListIndex', 'left is the start, right is the end', g['file'], p)
    for p in returns(cx.paths(st)):
        want = 'startIndex' if p.facts.entails(eq(P(st, 0), L)) else 'endIndex' if p.facts.entails(eq(P(st, 0), R)) else None
        ws = {e.loc for e in p.events if e.kind == 'write' and loc_fields(e.loc)}
        cx.ob(want is not None and ws == {thisloc(KD + want)} and p.final(thisloc(KD + want)) == P(st, 1), 'KeyDescriptor::setListIndex', 'left is the start, right is the end', st['file'], p)
    for p in returns(cx.paths(fl)):
        cx.ob((p.val == R and p.facts.entails(eq(P(fl, 0), L))) or (p.val == L and p.facts.entails(eq(P(fl, 0), R))), 'flipDirection', 'the other direction', fl['file'], p)
    e = cx.fn(KD + 'empty')
    for p, b, fx in bool_cases(cx.paths(e)):
        c = eq(kt, ('e', KT + 'kNull'))
        cx.ob(fx.entails(c) if b else fx.entails(tneg(c)), 'KeyDescriptor::empty', 'exactly the descriptor without type', e['file'], p)
    d = cx.fn(KD + 'KeyDescriptor', nparams=0)
    for p in returns(cx.paths(d)):
        cx.ob(p.final(thisloc(KD + 'keyType')) == ('e', KT + 'kNull') and p.final(thisloc(KD + 'sz')) == ZERO and p.final(thisloc(KD + 'startIndex')) == p.final(thisloc(KD + 'endIndex')), 'KeyDescriptor()', 'a new descriptor has no type, no elements and an empty range', d['file'], p)


def typed(cx, p, kt, kinds, s, f):
    if kinds is not None:
        no = [n for n in cx.p.enumval if n.startswith(KT) and n.split('::')[-1] not in kinds]
        cx.ob(all(p.facts.refutes(eq(kt, ('e', n))) for n in no), s, 'only for types that have the item', f['file'], p)
