"""Texts, files and small utilities: C18, F02, F03, U07."""
from qdb.common import *
from rules.r_resp import turns, replaced, nothing, Bad
from rules.r_net import rloc, wr

Q = 'quarkdb::'
PU = 'quarkdb::ParseUtils::'
RES = 'ResilveringEvent::'
REH = 'ResilveringHistory::'
NPOS = C(2 ** 63 - 1)


def outs(p, f, i):
    return p.final(rloc(f, i))


def call_facts(name):
    return name


@rule('C18', 'integers', 'a text is a number only if all of it is, in range')
def c18_integers(cx):
    n = 0
    for f in cx.p.fns(PU + 'parseInt64'):
        s = f['name']
        for p, r, F in bool_cases(cx.paths(f)):
            t = P(f, 0)
            st = p.calls('~^(std::)?strtol{1,2}$')
            if r:
                n += 1
                ok_ = len(st) == 1 and st[0].args[0] in (('call', 'data', t), ('cstr', t)) and st[0].args[2] == C(10)
                cx.ob(ok_, s, 'the text is read as a decimal number', None, p)
                if not ok_:
                    continue
                end, v = ('out', st[0].n, st[0].name, 1, ()), outs(p, f, 1)
                cx.ob(F.entails(ne(size(t), ZERO)), s, 'an empty text is no number', None, p)
                cx.ob(F.entails(eq(end, add(st[0].args[0], size(t)))), s, 'all of it is', None, p)
                cx.ob(v is not None and is_ret(v) and v == st[0].ret or v == (('call', st[0].name) + tuple(st[0].args)) or v is not None and v[:1] == ('ret',) and v[2] == st[0].name or v == st[0].ret, s, 'is what is delivered', None, p)
                cx.ob(F.entails(ne(v, C(-2 ** 63))) and F.entails(ne(v, C(2 ** 63 - 1))), s, 'numbers out of range are refused', None, p)
            else:
                a, b = size(t), outs(p, f, 1)
                end = ('out', st[0].n, st[0].name, 1, ()) if st else None
                why = [eq(a, ZERO)]
                if st:
                    why += [ne(end, add(st[0].args[0], a)), eq(b, C(-2 ** 63)), eq(b, C(2 ** 63 - 1))]
                cx.ob(one_of_(F, why), s, 'only what is no number is refused', None, p)
    f = cx.fn(Q + 'my_strtod')
    s = f['name']
    for p, r, F in bool_cases(cx.paths(f)):
        t = P(f, 0)
        st = p.calls('~^(std::)?strtod$')
        nan = lambda v: ('call', 'std::isnan', v)
        if r:
            n += 1
            ok_ = len(st) == 1 and st[0].args[0] in (('call', 'data', t), ('cstr', t))
            cx.ob(ok_, s, 'the text is read as a number', None, p)
            if not ok_:
                continue
            end, v = ('out', st[0].n, st[0].name, 1, ()), st[0].ret
            cx.ob(outs(p, f, 1) == v, s, 'is what is delivered', None, p)
            cx.ob(F.entails(ne(size(t), ZERO)), s, 'an empty text is no number', None, p)
            cx.ob(F.entails(eq(end, add(st[0].args[0], size(t)))), s, 'all of it is', None, p)
            hv = [e.ret for e in p.calls('~huge_val$')] + [('call', '__builtin_huge_val')]
            cx.ob(any(F.entails(ne(v, h)) for h in hv) and any(F.entails(ne(add(v, h), ZERO)) or F.entails(ne(v, ('op', '-', h))) for h in hv) or F.entails(ne(('call', '~isfinite', v), ZERO)), s, 'numbers out of range are refused', None, p)
            cx.ob(not possible(F, ne(nan(v), ZERO)), s, 'nan is refused', None, p)
    cx.ob(n >= 2, PU, 'numbers are read')


def one_of_(F, ts):
    """the facts leave only ts"""
    return not possible(F, *[tneg(t) for t in ts])


@rule('C18', 'lists', 'a list is accepted only if each item is')
def c18_lists(cx):
    n = 0
    f = cx.fn(PU + 'parseIntegerList')
    s = f['name']
    for p, r, F in bool_cases(cx.paths(f, pure=(PU + 'split',), opaque=(PU + 'parseInt64',))):
        sp = [x for x in p.calls('~ParseUtils::split$|quarkdb::split$')]
        pi = p.calls('~parseInt64$')
        cx.ob(len(sp) == 1 and sp[0].args == (P(f, 0), P(f, 1)), s, 'splits the text', None, p)
        if len(sp) != 1:
            continue
        items = sp[0].ret
        bad = [e for e in pi if not possible(F, ne(e.ret, ZERO))]
        for e in pi:
            i = e.args[0]
            cx.ob(is_call(i, '[]') and i[2] == items or visits(p, e.loops, i, lambda c: c == items), s, 'reads its items', e.where(), p)
        if not r:
            cx.ob(bool(bad), s, 'only a malformed item is refused', None, p)
            continue
        n += 1
        cx.ob(not bad, s, 'a malformed item is refused', None, p)
        res = outs(p, f, 2)
        if not pi:
            cx.ob(nothing(F, size(items)) and (res == ('ctor', 'std::vector', ()) or is_empty_(res)), s, 'all items are read', None, p)
            continue
        e = pi[0]
        i = e.args[0]
        cx.ob(is_call(i, '[]') and covers(p, e, i[3], ZERO, size(items)) or visits(p, e.loops, i, lambda c: c == items), s, 'all items are read', e.where(), p)
        fl = folds(p, res)
        ok_ = fl and fl[2] is not None and fl[2][:1] == ('mut',) and fl[2][1].split('::')[-1] in ('push_back', 'emplace_back') and fl[2][2] == fl[1] and fl[2][3] == (outv(e, 1),)
        cx.ob(bool(ok_), s, 'and delivered in order', None, p)
        cx.ob(bool(ok_) and is_empty_(fl[0]), s, 'and nothing else', None, p)
        cx.ob(all(x.facts.entails(ne(e.ret, ZERO)) for x in p.events if x.kind == 'loop' and x.info == 'iterend' and x.val[1] in e.loops), s, 'stops at a malformed item', None, p)
    cx.ob(n > 1, s, 'reads lists')


def is_empty_(v):
    return v[:1] == ('ctor',) and v[2] == () or v[:1] == ('mut',) and v[1].endswith('::clear') or v == ('s', '')


@rule('C18', 'split', 'splitting a text loses nothing')
def c18_split(cx):
    n = 0
    for f in cx.p.fns(Q + 'split') + cx.p.fns(PU + 'split'):
        s = f['name']
        for p in cx.paths(f):
            if p.outcome not in ('return', 'loop'):
                continue
            pushes = [e for e in p.calls('~vector::(push_back|emplace_back)$')]
            for e in pushes:
                n += 1
                a = e.args[0]
                begin = [x for x in p.events if x.kind == 'loop' and x.info == 'begin' and e.loops and x.val[1] == e.loops[-1]]
                if not begin:
                    # the last piece, after the loop
                    ok_ = a[:1] == ('hav',) or a == P(f, 0) or is_call(a, 'substr')
                    cx.ob(ok_, s, 'the last piece is what is left', e.where(), p)
                    continue
                rest = [(v, x, b) for bg in begin for v, x, b in bg.args if x == P(f, 0)]
                offs = [(v, x, b) for bg in begin for v, x, b in bg.args if x == ZERO]
                if rest:
                    cur = rest[0][2]
                    pos = ('call', 'find', cur, P(f, 1), ZERO)
                    F = p.facts
                    cx.ob(a == ('call', 'substr', cur, ZERO, pos), s, 'a piece is what comes before the separator', e.where(), p)
                    nxt = [b for x in p.events if x.kind == 'loop' and x.info == 'iterend' for v, y, b in x.args if v == rest[0][0]]
                    for x in p.events:
                        if x.kind == 'loop' and x.info == 'iterend':
                            G = x.facts
                            if G.entails(ne(pos, NPOS)):
                                b = [b for v, y, b in x.args if v == rest[0][0]]
                                tok = size(P(f, 1))
                                cx.ob(len(b) == 1 and is_call(b[0], 'substr') and b[0][2] == cur and sub(b[0][3], pos) == tok, s, 'the rest starts behind the separator', e.where(), p)
                    if p.outcome == 'return':
                        cx.ob(F.entails(eq(pos, NPOS)), s, 'until there is no separator', None, p)
                elif offs:
                    cur = offs[0][2]
                    pos = ('call', 'find', P(f, 0), P(f, 1), cur)
                    G = e.facts
                    whole = is_call(a, 'substr') and a[2] == P(f, 0) and a[3] == cur
                    cx.ob(whole and (len(a) == 4 or a[4] == sub(pos, cur) or a[4] == NPOS and G.entails(eq(pos, NPOS))), s, 'a piece is what comes before the separator', e.where(), p)
                    for x in p.events:
                        if x.kind == 'loop' and x.info == 'iterend':
                            b = [b for v, y, b in x.args if v == offs[0][0]]
                            cx.ob(len(b) == 1 and (b[0] == add(pos, size(P(f, 1))) or b[0] == cur and x.facts.entails(eq(pos, NPOS))), s, 'the rest starts behind the separator', e.where(), p)
                else:
                    cx.ob(False, s, 'takes the text apart from its start', e.where(), p)
            if p.outcome == 'return':
                cx.ob(bool(pushes), s, 'there is always a piece', None, p)
    cx.ob(n > 3, Q + 'split', 'texts are split')
    f = cx.fn(Q + 'serializeNodes')
    s = f['name']
    m = 0
    for p in cx.paths(f, opaque=('~RaftServer::toString$',)):
        if p.outcome != 'return':
            continue
        for e in p.calls('~RaftServer::toString$'):
            m += 1
            o = e.obj
            ix = [b for x in loop_events(p, e.loops[-1]) if x.info == 'begin' for v, a, b in x.args if b is not None and is_call(o, '[]') and o[2] == P(f, 0) and o[3] == b] if e.loops else []
            ok_ = bool(ix) and covers(p, e, ix[0], ZERO, size(P(f, 0))) or visits(p, e.loops, o, lambda c: c == P(f, 0))
            cx.ob(ok_, s, 'names each server', e.where(), p)
            its = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend' and x.val[1] in e.loops]
            for x in its:
                txt = [(a, b) for v, a, b in x.args if b is not None and b[:1] == ('cat',)]
                parts = [y for y in shape_list(txt[0][1])] if txt else []
                G = x.facts
                mine = [y for y in parts if y != txt[0][0]] if txt else []
                want = [e.ret, ('s', ',')]
                sep = [b for v, a, b in x.args if b == ('s', ',') and mine[:1] == [a]]
                first = [a for x2 in p.events if x2.kind == 'loop' and x2.info == 'begin' and x2.val == x.val for v, a, b in x2.args if sep and b == mine[0]]
                if len(mine) == 2 and mine[1] == e.ret and first in ([('s', '')], [('ctor', 'std::string', ())]):
                    continue        # the separator is empty at first, a comma afterwards
                isl = eq(add(ix[0], C(1)), size(P(f, 0))) if ix else False
                isf = eq(ix[0], ZERO) if ix else False
                none = lambda t: not ix or not possible(G, t)
                only = lambda t: bool(ix) and not possible(G, tneg(t))
                cx.ob(mine == want and none(isl) or mine == [e.ret] and (only(isl) or only(isf)) or mine == [('s', ','), e.ret] and none(isf), s, 'separated by commas', e.where(), p)
    cx.ob(m, s, 'writes lists of servers')


def shape_list(v):
    out = []
    for x in v[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            out += list(x)
        else:
            out.append(x)
    return out


@rule('C18', 'servers', 'an address is a host and a port, lists name no server twice')
def c18_servers(cx):
    RS = 'quarkdb::RaftServer::'
    f = cx.fn(Q + 'parseServer')
    s = f['name']
    n = 0
    for p, r, F in bool_cases(cx.paths(f, pure=(Q + 'split', PU + 'split'), opaque=(PU + 'parseInt64',))):
        sp = p.calls('~(quarkdb|ParseUtils)::split$')
        pi = p.calls('~parseInt64$')
        cx.ob(len(sp) == 1 and sp[0].args == (P(f, 0), ('s', ':')), s, 'splits the text at colons', None, p)
        if len(sp) != 1:
            continue
        parts = sp[0].ret
        at = lambda i: ('call', '[]', parts, C(i))
        if not r:
            cx.ob(not wr(p, rloc(f, 1)), s, 'nothing is delivered for a malformed address', None, p)
            why = [ne(size(parts), C(2))] + [eq(x.ret, ZERO) for x in pi]
            rng = ('call', 'std::in_range<int>', outv(pi[0], 1)) if pi else ZERO
            v = outv(pi[0], 1) if pi else ZERO
            why += [eq(rng, ZERO), gt(v, C(65535)), lt(v, C(-1)), lt(v, ZERO), eq(size(at(0)), ZERO)] if pi else []
            cx.ob(any(F.entails(w) for w in why) or one_of_(F, why), s, 'only a malformed address is refused', None, p)
            continue
        n += 1
        cx.ob(F.entails(eq(size(parts), C(2))), s, 'there are two parts', None, p)
        cx.ob(len(pi) == 1 and pi[0].args[0] == at(1) and F.entails(ne(pi[0].ret, ZERO)), s, 'the second one is a number', None, p)
        if len(pi) != 1:
            continue
        v = outv(pi[0], 1)
        cx.ob(F.entails(ne(('call', 'std::in_range<int>', v), ZERO)) or F.entails(le(v, C(2 ** 31 - 1))) and F.entails(ge(v, C(-2 ** 31))), s, 'which fits into a port', None, p)
        w = outs(p, f, 1)
        cx.ob(Engine.project(w, RS + 'hostname') == at(0) and Engine.project(w, RS + 'port') == v, s, 'is delivered as it is', None, p)
    cx.ob(n, s, 'reads addresses')
    f = cx.fn(Q + 'parseServers')
    s = f['name']
    n = 0
    for p in cx.paths(f, pure=(Q + 'split', PU + 'split', '~quarkdb::checkUnique'), opaque=(Q + 'parseServer',)):
        if p.outcome != 'return':
            continue
        F = p.facts
        sp = p.calls('~(quarkdb|ParseUtils)::split$')
        ps = p.calls('~quarkdb::parseServer$')
        cu = p.calls('~checkUnique')
        cx.ob(len(sp) == 1 and sp[0].args == (P(f, 0), ('s', ',')), s, 'splits the text at commas', None, p)
        if len(sp) != 1:
            continue
        items = sp[0].ret
        for e in ps:
            i = e.args[0]
            cx.ob(is_call(i, '[]') and i[2] == items or visits(p, e.loops, i, lambda c: c == items), s, 'reads its items', e.where(), p)
        if F.entails(eq(p.val, ZERO)) and not cu:
            cx.ob(any(F.entails(eq(e.ret, ZERO)) for e in ps), s, 'only a malformed address is refused', None, p)
            continue
        n += 1
        cx.ob(len(cu) == 1 and (p.val == cu[0].ret or decide(F, p.val) in (ZERO, C(1)) and (F.entails(ne(cu[0].ret, ZERO)) if decide(F, p.val) == C(1) else F.entails(eq(cu[0].ret, ZERO)))), s, 'duplicates are refused', None, p)
        res = outs(p, f, 1)
        cx.ob(len(cu) == 1 and cu[0].args[0] == res, s, 'among all of them', None, p)
        for e in ps:
            i = e.args[0]
            cx.ob(is_call(i, '[]') and covers(p, e, i[3], ZERO, size(items)) or visits(p, e.loops, i, lambda c: c == items), s, 'all items are read', e.where(), p)
            its = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend' and x.val[1] in e.loops]
            cx.ob(all(x.facts.entails(ne(e.ret, ZERO)) for x in its), s, 'a malformed address is refused', e.where(), p)
            fl = folds(p, res)
            ok_ = fl and fl[2] is not None and fl[2][:1] == ('mut',) and fl[2][1].split('::')[-1] in ('push_back', 'emplace_back') and fl[2][2] == fl[1] and fl[2][3] == (outv(e, 1),)
            cx.ob(bool(ok_) and is_empty_(fl[0]), s, 'and delivered in order', None, p)
        if not ps:
            cx.ob(nothing(F, size(items)), s, 'all items are read', None, p)
    cx.ob(n, s, 'reads lists of addresses')
    m = 0
    for f in cx.p.fns(Q + 'checkUnique'):
        s = f['name']
        v = P(f, 0)
        for p in cx.paths(f, pure=('~RaftServer::operator',)):
            if p.outcome != 'return':
                continue
            if p.val in (('c', False), ZERO) or p.facts.entails(eq(p.val, ZERO)):
                m += 1
                eqs = [t for l in p.facts.all() if l[0] != 'eq' or l[2] != 0 for t, c in l[1] if is_call(t, '~operator==') or t[:2] == ('op', '==')]
                eqs += [('op', '==') + tuple(t for t, c in l[1]) for l in p.facts.all() if l[0] == 'eq' and len(l[1]) == 2 and all(is_call(t, '[]') for t, c in l[1])]
                ok_ = False
                for t in eqs:
                    els = [x for x in t[2:] if is_call(x, '[]') and x[2] == v]
                    ok_ = ok_ or len(els) == 2 and (p.facts.entails(ne(els[0][3], els[1][3])) or p.facts.entails(lt(els[0][3], els[1][3])))
                cx.ob(ok_, s, 'only two equal ones are refused', None, p)
                continue
            inner = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend' and len(e.loops) >= 2]
            for e in inner:
                G = e.facts
                idx = [(a, b) for x in p.events if x.kind == 'loop' and x.info == 'begin' and x.val[1] in e.loops for v2, a, b in x.args if a is not None and a[:1] != ('undef',)]
                cur = [b for a, b in idx]
                if len(cur) < 2:
                    cx.ob(False, s, 'compares each with each other', e.where(), p)
                    continue
                (a1, i), (a2, j) = idx[0], idx[1]
                cx.ob(a1 == ZERO and (a2 == ZERO or a2 == add(i, C(1))), s, 'compares each with each other', e.where(), p)
                same = [eq(i, j)] + [eq(t, ZERO) for l in G.all() for t, c in l[1] if is_call(t, '~operator==') or t[:2] == ('op', '==')] + [ne(('call', '[]', v, i), ('call', '[]', v, j))]
                cx.ob(one_of_(G, same) or any(G.entails(x) for x in same), s, 'and goes on only if they differ', e.where(), p)
            for x in p.events:
                if x.kind == 'loop' and x.info == 'exit':
                    b = [b for v2, a, b in x.args]
                    cx.ob(any(x.facts.entails(ge(y, size(v))) for y in b), s, 'up to the last one', x.where(), p)
    cx.ob(m, Q + 'checkUnique', 'finds duplicates')


@rule('C18', 'prefixes', 'a text starts or ends with another only if all of its characters agree')
def c18_prefixes(cx):
    n = 0
    for f in [g for k in ('StringUtils::startsWith', 'StringUtils::endsWith', 'StringUtils::isPrefix', 'startswith', 'caseInsensitiveEquals') for g in cx.p.fns(Q + k)]:
        w = f['name'].split('::')[-1]
        s = f['name']
        if w == 'isPrefix':
            if len(f['params']) != 3:
                continue
            pre, t, ln = P(f, 0), ('init', ('d', P(f, 1))), P(f, 2)
        else:
            t, pre = P(f, 0), P(f, 1)
            ln = size(t)
        off = sub(ln, size(pre)) if w == 'endsWith' else ZERO
        low = lambda v: v
        for p, r, F in bool_cases(cx.paths(f, pure=('~tolower$',))):
            fits = eq(ln, size(pre)) if w == 'caseInsensitiveEquals' else le(size(pre), ln)
            n += 1
            if not r:
                why = [tneg(fits)]
                for l in F.all():
                    if l[0] == 'ne' and len(l[1]) == 2 and l[2] == 0 and l[1][0][1] == -l[1][1][1]:
                        x, y = [peel_low(a[0]) for a in l[1]]
                        if chars(x, t, y, pre, off) or chars(y, t, x, pre, off):
                            why.append(ne(l[1][0][0], l[1][1][0]))
                why.append(ne(('call', 'substr', t, off, size(pre)), pre))
                cx.ob(one_of_(F, why), s, 'only a difference makes it false', None, p)
                continue
            cx.ob(F.entails(fits), s, 'a shorter text has no such prefix', None, p)
            its = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
            if not its and w != 'caseInsensitiveEquals' and F.entails(eq(('call', 'substr', t, off, size(pre)), pre)):
                continue
            if not its:
                cx.ob(not possible(F, gt(size(pre), ZERO)), s, 'all characters are compared', None, p)
                continue
            e = its[0]
            cur = [b for x in p.events if x.kind == 'loop' and x.info == 'begin' for v, a, b in x.args if a == ZERO]
            ok_ = False
            for i in cur:
                a, b = ('call', '[]', t, add(off, i)), ('call', '[]', pre, i)
                for x, y in ((a, b), (lower(a), lower(b))):
                    ok_ = ok_ or lasting(e, F).entails(eq(x, y)) and e.facts.entails(lt(i, size(pre))) and (w == 'caseInsensitiveEquals') == (x != a)
            cx.ob(ok_, s, 'characters are compared', e.where(), p)
            ex = [x for x in p.events if x.kind == 'loop' and x.info == 'exit']
            cx.ob(bool(ex) and any(ex[0].facts.entails(ge(b, size(pre))) for v, a, b in ex[0].args) and any(sub(b, a) == C(1) for v, a, b in e.args), s, 'up to the last one', e.where(), p)
    cx.ob(n > 6, Q + 'StringUtils', 'prefixes are compared')


def lower(v):
    return ('call', 'tolower', v)


def peel_low(v):
    return v[2] if is_call(v, '~tolower$') else v


def chars(x, t, y, pre, off):
    return is_call(x, '[]') and is_call(y, '[]') and x[2] == t and y[2] == pre and x[3] == add(off, y[3])


FU = 'quarkdb::'
DI = 'quarkdb::DirectoryIterator::'


def closes(cx, p, s):
    """each file opened on the path is closed once, after its last use"""
    op = p.calls('~^fopen$')
    for e in op:
        if not possible(p.facts, ne(e.ret, ZERO)) or p.facts.entails(eq(e.ret, ZERO)):
            cx.ob(not [x for x in p.calls('~^f(close|read|write|stat|eof)$|^fileno$|readFile$') if e.ret in x.args], s, 'a file that did not open is not used', None, p)
            continue
        for x in p.calls('~^f(close|read|write|stat|eof)$|^fileno$|readFile$'):
            if e.ret in x.args:
                cx.ob(x.facts.entails(ne(e.ret, ZERO)), s, 'a file that did not open is not used', x.where(), p)
        cl = [x for x in p.calls('~^fclose$') if x.args[0] == e.ret]
        cx.ob(len(cl) == 1 and not [x for x in p.calls('~^f(read|write|stat|eof)$|^fileno$') if e.ret in x.args and x.n > cl[0].n], s, 'the file is closed, once, at the end', None, p)
    return op


@rule('F02', 'read', 'reading succeeds only with the whole contents')
def f02_read(cx):
    fs = cx.p.fns(FU + 'readFile')
    n = 0
    for f in fs:
        isf = 'FILE' in f['key']
        s = 'quarkdb::readFile(%s)' % ('FILE*' if isf else 'path')
        if isf:
            for p, r, F in bool_cases(cx.paths(f)):
                if p.outcome != 'return':
                    continue
                rd = p.calls('~^fread$')
                fe = [e for e in p.calls('~^f(eof|error)$') if e.args == (P(f, 0),)]
                if r:
                    n += 1
                    cx.ob(any(F.entails(ne(e.ret, ZERO)) if e.name.endswith('eof') else F.entails(eq(e.ret, ZERO)) for e in fe), s, 'the end was reached', None, p)
                for e in rd:
                    nb = e.ret if e.args[1] == C(1) else None
                    cx.ob(e.args[3] == P(f, 0) and nb is not None, s, 'reads the file', e.where(), p)
                    txt = [v for v in subterms(outs(p, f, 1)) if v[:1] == ('text',)] + [v for x in p.events if x.kind == 'loop' and x.info == 'iterend' for a in x.args for v in subterms(a) if v[:1] == ('text',)]
                    mine = [v for v in txt if v[1] == ('out', e.n, e.name, 0, ())]
                    cx.ob(not possible(F, gt(e.ret, ZERO)) or bool(mine) and all(v[2] == e.ret for v in mine), s, 'keeps all that was read', e.where(), p)
                    cx.ob(F.entails(ne(e.ret, e.args[2])) or F.entails(lt(e.ret, e.args[2])) or not r, s, 'until there is no more', e.where(), p)
                v = outs(p, f, 1)
                fl = folds(p, v)
                parts = shape(p, v)
                cx.ob(len(parts) <= 2 and all(x[:1] in (('rep',), ('text',), ('hav',)) for x in parts), s, 'delivers just that', None, p)
        else:
            for p in cx.paths(f, opaque=('~readFile\\(_IO_FILE',) , pure=()):
                pass
    f = [g for g in fs if 'FILE' not in g['key']][0]
    s = 'quarkdb::readFile(path)'
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        op = closes(cx, p, s)
        cx.ob(len(op) == 1 and op[0].args[0] in (P(f, 0), ('cstr', P(f, 0))), s, 'opens the file', None, p)
        if not op:
            continue
        if p.facts.entails(eq(op[0].ret, ZERO)):
            cx.ob(p.facts.entails(eq(p.val, ZERO)), s, 'a file that does not open is reported', None, p)
            continue
        n += 1
        fe = [e.ret for e in p.calls('~^feof$')]
        cx.ob(p.val in fe or p.facts.entails(eq(p.val, ZERO)) or any(p.facts.entails(ne(x, ZERO)) for x in fe), s, 'reports what reading did', None, p)
    f = cx.fn(FU + 'areFilePermissionsSecure')
    s = f['name']
    for p, r, F in bool_cases(cx.paths(f)):
        bits = {}
        for l in F.all():
            for t, c in l[1]:
                if t[:2] == ('op', '&') and len(t) == 4 and len(l[1]) == 1:
                    m = [x[1] for x in t[2:] if is_num(x)]
                    if P(f, 0) in t[2:] and m:
                        bits[m[0]] = (l[0], l[2])
        n += 1
        want = {}
        if r:
            known = {}
            for m, (op, v) in bits.items():
                if op == 'eq':
                    for b in range(9):
                        if m >> b & 1:
                            known[b] = v * c_sign(v) >> b & 1
            cx.ob(all(known.get(b) == (1 if b == 8 else 0) for b in range(9)), s, 'only readable by its owner', None, p)
        else:
            cx.ob(any(op == 'ne' and (m & 0o777 == m) and v == (m & 0o400) for m, (op, v) in bits.items()), s, 'only that matters', None, p)
    f = cx.fn(FU + 'readPasswordFile')
    s = f['name']
    sec = 'quarkdb::areFilePermissionsSecure'
    for p in cx.paths(f, pure=('~readFile$', '~areFilePermissionsSecure$')):
        if p.outcome != 'return':
            continue
        F = p.facts
        op = closes(cx, p, s)
        st, rd, pm = p.calls('~^fstat$'), p.calls('~quarkdb::readFile$'), p.calls('~areFilePermissionsSecure$')
        for e in rd:
            n += 1
            ok_ = len(st) == 1 and len(pm) == 1 and len(op) == 1
            cx.ob(ok_ and F.entails(eq(st[0].ret, ZERO)) and F.entails(ne(pm[0].ret, ZERO)) and pm[0].args[0] == Engine.project(outv(st[0], 1), 'stat::st_mode'), s, 'only a file with the right permissions is read', e.where(), p)
            fno = p.calls('~^fileno$')
            cx.ob(ok_ and len(fno) == 1 and fno[0].args == (op[0].ret,) and st[0].args[0] == fno[0].ret and e.args[0] == op[0].ret, s, 'the permissions are those of the file read', e.where(), p)
        if not rd:
            cx.ob(F.entails(eq(p.val, ZERO)), s, 'otherwise a failure is reported', None, p)
            cx.ob(not wr(p, rloc(f, 1)), s, 'and nothing delivered', None, p)
            continue
        good = p.val == rd[0].ret or decide(F, p.val) in (ZERO, C(1), ('c', True), ('c', False))
        cx.ob(good, s, 'reports what reading did', None, p)
        v = outs(p, f, 1)
        raw = outv(rd[0], 1)
        if F.entails(ne(rd[0].ret, ZERO)):
            ws = ('s', ' \t\n\r\f\v')
            er = v if v[:1] == ('mut',) and v[1].endswith('::erase') else None
            a = er[3] if er else ()
            last = [x for x in subterms(a) if is_call(x, '~find_last_not_of$')]
            cx.ob(er is not None and er[2] == raw and bool(last) and sub(a[0], last[0]) == C(1) and last[0][2] == raw and set(last[0][3][1]) == set(ws[1]) if er and last and last[0][3][:1] == ('s',) else False, s, 'whitespace at the end is taken off, nothing else', None, p)
    cx.ob(n > 5, FU, 'files are read')


def c_sign(v):
    return -1 if v < 0 else 1


@rule('F02', 'write', 'writing succeeds only if everything was written and closed')
def f02_write(cx):
    f = cx.fn(FU + 'write_file')
    s = f['name']
    n = 0
    for p, r, F in bool_cases(cx.paths(f)):
        op = closes(cx, p, s)
        fw, fc = p.calls('~^fwrite$'), p.calls('~^fclose$')
        cx.ob(len(op) == 1 and op[0].args[0] in (P(f, 0), ('cstr', P(f, 0))) and op[0].args[1][:1] == ('s',) and op[0].args[1][1] in ('w', 'wb'), s, 'starts with an empty file', None, p)
        why = [eq(e.ret, ZERO) for e in op]
        for e in fw:
            k = C(1) if e.args[1] == C(1) else None
            cx.ob(e.args[0] == ('call', 'data', P(f, 1)) and k is not None and e.args[2] == size(P(f, 1)) and e.args[3] == op[0].ret, s, 'writes the contents', e.where(), p)
            why.append(ne(e.ret, size(P(f, 1))))
            why.append(lt(e.ret, size(P(f, 1))))
        why += [ne(e.ret, ZERO) for e in fc]
        if r:
            n += 1
            cx.ob(len(fw) == 1 and F.entails(eq(fw[0].ret, size(P(f, 1)))), s, 'all of it was written', None, p)
            cx.ob(len(fc) == 1 and F.entails(eq(fc[0].ret, ZERO)), s, 'and the file closed without error', None, p)
        else:
            cx.ob(any(F.entails(w) for w in why), s, 'only a failure is reported as one', None, p)
            cx.ob(bool(wr(p, rloc(f, 2))), s, 'with a reason', None, p)
    f = cx.fn(FU + 'write_file_or_die')
    s = f['name']
    for p in cx.paths(f, opaque=('~write_file$',)):
        w = p.calls('~write_file$')
        cx.ob(len(w) == 1 and w[0].args[0] == P(f, 0) and w[0].args[1] == P(f, 1), s, 'writes the file', None, p)
        if w and p.outcome == 'return':
            n += 1
            cx.ob(p.facts.entails(ne(w[0].ret, ZERO)), s, 'stops if that fails', None, p)
        elif w:
            cx.ob(p.facts.entails(eq(w[0].ret, ZERO)), s, 'and only then', None, p)
    cx.ob(n >= 2, s, 'files are written')


@rule('F02', 'directories', 'failing to create, rename or look into a directory is reported')
def f02_dirs(cx):
    n = 0
    f = cx.fn(FU + 'mkpath')
    s = f['name']
    sl = ('s', '/')
    fnd = lambda k: ('call', 'find', P(f, 0), sl, k)
    first = fnd(add(fnd(ZERO), C(1)))

    def slash(p, v):
        """v runs over every slash but the one the path starts from: (ends when there is no other)"""
        for x in p.events:
            if x.kind != 'loop' or x.info != 'begin':
                continue
            for var, entry, cur in x.args or ():
                ends = [b2 for y in p.events if y.kind == 'loop' and y.val == x.val and y.info == 'iterend' for v2, a2, b2 in y.args or () if v2 == var]
                if v == cur:
                    return entry == first and all(b2 == fnd(add(cur, C(1))) for b2 in ends)
                if v == fnd(add(cur, C(1))):
                    return entry == fnd(ZERO) and all(b2 == v for b2 in ends)
        return False
    for p, r, F in bool_cases(cx.paths(f)):
        mk, st = p.calls('~^mkdir$'), p.calls('~^l?stat$')
        for e in mk + st:
            a = e.args[0]
            a = a[1] if a[:1] == ('cstr',) else a
            ok_ = is_call(a, 'substr') and a[2] == P(f, 0) and a[3] == ZERO
            cx.ob(ok_ and (is_call(a[4], 'find') or a[4][:1] == ('hav',)), s, 'each leading part of the path', e.where(), p)
            cx.ob(ok_ and slash(p, a[4]), s, 'none is left out', e.where(), p)
            cx.ob(ok_ and F.entails(ne(a[4], NPOS)), s, 'only what ends at a slash', e.where(), p)
        for e in mk:
            n += 1
            cx.ob(e.args[1] == P(f, 1) and any(x.args[0] == e.args[0] and F.entails(ne(x.ret, ZERO)) for x in st), s, 'is made if it is not there', e.where(), p)
        for e in st:
            if not possible(F, eq(e.ret, ZERO)):
                cx.ob(any(x.args[0] == e.args[0] for x in mk), s, 'is made if it is not there', e.where(), p)
        for l in {e.val[1] for e in p.events if e.kind == 'loop' and e.info == 'iterend'}:
            cx.ob(any(l in e.loops for e in st), s, 'each leading part of the path', None, p)
        bad = [e for e in mk if not possible(F, ge(e.ret, ZERO))]
        if r:
            cx.ob(all(F.entails(ge(e.ret, ZERO)) or F.entails(eq(e.ret, ZERO)) for e in mk), s, 'a failure is reported', None, p)
            cand = [fnd(add(fnd(ZERO), C(1)))]
            for x in p.events:
                if x.kind == 'loop' and x.info in ('begin', 'iterend', 'exit'):
                    for var, a2, b2 in x.args or ():
                        cand += [b2, fnd(add(b2, C(1)))] if x.info == 'exit' else []
            exits = [x for x in p.events if x.kind == 'loop' and x.info == 'exit']
            cx.ob(any(F.entails(eq(t, NPOS)) for t in (cand[1:] if exits else cand)), s, 'up to the last one', None, p)
        else:
            cx.ob(bool(bad), s, 'and only then', None, p)
    for nm, callee, what in (('mkpath_or_die', '~quarkdb::mkpath$', 0),):
        f = cx.fn(FU + nm)
        for p in cx.paths(f, opaque=('~quarkdb::mkpath$',)):
            c = p.calls(callee)
            cx.ob(len(c) == 1 and c[0].args[:2] == (P(f, 0), P(f, 1)), f['name'], 'makes the path', None, p)
            if c:
                n += 1
                cx.ob(p.facts.entails(ne(c[0].ret, ZERO) if p.outcome == 'return' else eq(c[0].ret, ZERO)), f['name'], 'stops exactly if that fails', None, p)
    f = cx.fn(FU + 'rename_directory_or_die')
    s = f['name']
    for p in cx.paths(f, pure=('~directoryExists$', '~quotes$')):
        de, rn = p.calls('~directoryExists$'), p.calls('~^rename$')
        if p.outcome == 'return':
            n += 1
            cx.ob(len(rn) == 1 and rn[0].args in ((P(f, 0), P(f, 1)), (('cstr', P(f, 0)), ('cstr', P(f, 1)))) and p.facts.entails(eq(rn[0].ret, ZERO)), s, 'the directory was renamed', None, p)
        else:
            cx.ob(any(p.facts.entails(ne(e.ret, ZERO)) for e in rn) or any(p.facts.entails(eq(e.ret, ZERO)) for e in de), s, 'stops only if that failed', None, p)
    for nm, fmt in (('directoryExists', 0o40000), ('fileExists', 0o100000)):
        f = cx.fn(FU + nm)
        s = f['name']
        for p, r, F in bool_cases(cx.paths(f)):
            st = p.calls('~^stat$')
            cx.ob(len(st) == 1 and st[0].args[0] in (P(f, 0), ('cstr', P(f, 0))), s, 'looks at the path', None, p)
            if len(st) != 1:
                continue
            n += 1
            mode = Engine.project(outv(st[0], 1), 'stat::st_mode')
            kind = [t for t in (('op', '&', mode, C(0o170000)), ('op', '&', C(0o170000), mode))]
            if r:
                cx.ob(F.entails(eq(st[0].ret, ZERO)) and any(F.entails(eq(k, C(fmt))) for k in kind), s, 'is there and of the right kind', None, p)
            else:
                cx.ob(F.entails(ne(st[0].ret, ZERO)) or any(F.entails(ne(k, C(fmt))) for k in kind), s, 'or it is not', None, p)
    f = cx.fn(FU + 'ensureSameFilesystem')
    s = f['name']
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        st = p.calls('~^stat$')
        F = p.facts
        ec = Engine.project(p.val, 'quarkdb::Status::errcode')
        dev = [Engine.project(outv(e, 1), 'stat::st_dev') for e in st]
        same = len(st) == 2 and all(F.entails(eq(e.ret, ZERO)) for e in st) and F.entails(eq(dev[0], dev[1])) and {e.args[0] for e in st} in ({P(f, 0), P(f, 1)}, {('cstr', P(f, 0)), ('cstr', P(f, 1))})
        cx.ob(ec == ZERO and same or ec != ZERO and not is_zero(ec) and (any(F.entails(ne(e.ret, ZERO)) for e in st) or len(dev) == 2 and F.entails(ne(dev[0], dev[1]))), s, 'both are there, on one filesystem', None, p)
        n += 1
    f = cx.fn(FU + 'countFilesInDirectoryRecursively')
    s = f['name']
    for p, r, F in bool_cases(cx.paths(f, opaque=('~DirectoryIterator::', '~countFilesInDirectoryRecursively$'))):
        nx, okc, rec = p.calls('~DirectoryIterator::next$'), p.calls('~DirectoryIterator::ok$'), p.calls('~countFilesInDirectoryRecursively$')
        if not r:
            cx.ob(any(F.entails(eq(e.ret, ZERO)) for e in rec + okc), s, 'fails only if a directory cannot be read', None, p)
            continue
        n += 1
        cx.ob(all(F.entails(ne(e.ret, ZERO)) for e in rec), s, 'a directory that cannot be read is reported', None, p)
        cx.ob(len(okc) == 1 and F.entails(ne(okc[0].ret, ZERO)) and bool(nx) and F.entails(eq(nx[-1].ret, ZERO)) and okc[0].n > nx[-1].n, s, 'the iteration went through to its end', None, p)
        out = outs(p, f, 2)
        bodies = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend']
        fl = folds(p, out)
        cx.ob(fl is not None and fl[0] == ZERO if bodies else out == ZERO, s, 'delivers the count', None, p)
        for e in bodies:
            G = e.facts
            d = [(a, b) for v, a, b in e.args if a is not None and b is not None and (sub(b, a) == C(1) or rec and sub(b, a) == outv(rec[0], 2) or b == a)]
            isdir = [t for l in G.all() for t, c in l[1] if 'd_type' in str(t)]
            dots = [x for x in p.calls('~^strcmp$') if x.args[1] in (('s', '.'), ('s', '..'))]
            skip = any(G.entails(eq(x.ret, ZERO)) for x in dots)
            if not skip:
                cx.ob({x.args[1][1] for x in dots if G.entails(ne(x.ret, ZERO))} == {'.', '..'}, s, 'the directory itself is not counted', e.where(), p)
            kind = {t for l in G.all() for t, c in l[1] if 'd_type' in str(t)}
            if not skip:
                cx.ob(any(G.entails((eq if rec else ne)(t, k)) for t in kind for k in (C(4), ('e', 'DT_DIR'))), s, 'a directory is looked into, and only that', e.where(), p)
            for x in rec:
                tx = shape(p, x.args[0])
                cx.ob(len(tx) == 3 and tx[0] == P(f, 0) and tx[1] == ('s', '/') and 'd_name' in str(tx[2]) and 'next' in str(tx[2]), s, 'a directory is looked into', x.where(), p)
            step = [sub(b, a) for v, a, b in e.args if a is not None and b is not None and a[:1] == ('hav',) and b != a and is_lin(b)]
            if skip:
                cx.ob(not step and not rec, s, 'the directory itself is not counted', e.where(), p)
            elif rec:
                cx.ob(step == [outv(rec[0], 2)], s, 'files below are counted', e.where(), p)
            else:
                cx.ob(step == [C(1)], s, 'each file is counted once', e.where(), p)
    f = cx.fn(DI + 'next')
    s = f['name']
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        F = p.facts
        rd = p.calls('~^readdir$')
        if not rd:
            cx.ob(F.entails(eq(p.val, ZERO)) or p.val == ('null',), s, 'nothing follows an error or the end', None, p)
            cx.ob(not possible(F, eq(size(this(DI + 'error')), ZERO), eq(this(DI + 'reachedEnd'), ZERO)), s, 'only then', None, p)
            continue
        n += 1
        cx.ob(p.val == rd[0].ret and rd[0].args[0] == this(DI + 'dir') and F.entails(eq(size(this(DI + 'error')), ZERO)), s, 'delivers the next entry', None, p)
        er, en = p.final(thisloc(DI + 'error')), p.final(thisloc(DI + 'reachedEnd'))
        if F.entails(ne(rd[0].ret, ZERO)):
            cx.ob(er == this(DI + 'error') and en == this(DI + 'reachedEnd'), s, 'and nothing else', None, p)
            continue
        z = [e for e in p.events if e.kind == 'write' and e.n < rd[0].n and 'errno' in str(e.loc) and e.val == ZERO]
        no = [t for l in F.all() for t, c in l[1] if 'errno' in str(t)]
        cx.ob(bool(z) and bool(no), s, 'tells errors and the end apart', None, p)
        if no:
            if F.entails(eq(no[-1], ZERO)):
                cx.ob(F.entails(ne(en, ZERO)) and er == this(DI + 'error'), s, 'notes the end', None, p)
            else:
                cx.ob(er != this(DI + 'error') and er != ('s', '') and en == this(DI + 'reachedEnd'), s, 'notes the error', None, p)
    f = cx.fn(DI + 'ok')
    for p, r, F in bool_cases(cx.paths(f)):
        cx.ob(F.entails(eq(size(this(DI + 'error')), ZERO) if r else ne(size(this(DI + 'error')), ZERO)), f['name'], 'tells whether there was an error', None, p)
    f = cx.fn(DI + 'DirectoryIterator')
    for p in cx.paths(f):
        od = p.calls('~^opendir$')
        cx.ob(len(od) == 1 and p.final(thisloc(DI + 'dir')) == od[0].ret, f['name'], 'opens the directory', None, p)
        if od and p.outcome == 'return':
            er = p.final(thisloc(DI + 'error'))
            cx.ob(not possible(p.facts, ne(od[0].ret, ZERO)) if er[:1] == ('cat',) else not possible(p.facts, eq(od[0].ret, ZERO)), f['name'], 'or notes the error', None, p)
    cx.ob(n > 20, FU, 'directories are looked after')


def is_lin(v):
    return v[:1] in (('lin',), ('c',))


@rule('F03', 'event', 'an event is read back as it was written')
def f03_event(cx):
    f = cx.fn(RES + 'serialize')
    s = f['name']
    n = 0
    sep = None
    for p in cx.paths(f):
        t = shape(p, p.val)
        cx.ob(len(t) == 3 and t[0] == this(RES + 'id') and t[1][:1] == ('s',) and len(t[1][1]) > 0 and t[2] == ('call', 'std::to_string', this(RES + 'startTime')), s, 'writes the identifier and the time', None, p)
        sep = t[1] if len(t) == 3 else None
    f = cx.fn(RES + 'deserialize')
    s = f['name']
    loc = rloc(f, 1)
    for p, r, F in bool_cases(cx.paths(f, pure=(Q + 'split', PU + 'split'), opaque=(PU + 'parseInt64',))):
        sp, pi = p.calls('~(quarkdb|ParseUtils)::split$'), p.calls('~parseInt64$')
        cx.ob(len(sp) == 1 and sp[0].args == (P(f, 0), sep), s, 'takes apart what was written', None, p)
        if len(sp) != 1:
            continue
        parts = sp[0].ret
        at = lambda i: ('call', '[]', parts, C(i))
        if not r:
            cx.ob(F.entails(ne(size(parts), C(2))) or any(F.entails(eq(e.ret, ZERO)) for e in pi), s, 'only what is malformed is refused', None, p)
            continue
        n += 1
        cx.ob(F.entails(eq(size(parts), C(2))) and len(pi) == 1 and pi[0].args[0] == at(1) and F.entails(ne(pi[0].ret, ZERO)), s, 'what is malformed is refused', None, p)
        v = outs(p, f, 1)
        cx.ob(len(pi) == 1 and Engine.project(v, RES + 'id') == at(0) and Engine.project(v, RES + 'startTime') == outv(pi[0], 1), s, 'delivers both', None, p)
    for f in cx.p.fns(RES + 'ResilveringEvent'):
        if len(f['params']) != 2:
            continue
        for p in cx.paths(f):
            cx.ob(p.final(thisloc(RES + 'id')) == P(f, 0) and p.final(thisloc(RES + 'startTime')) == P(f, 1), f['name'], 'an event has its identifier and time', None, p)
    cx.ob(n and sep, RES, 'events are written and read')


@rule('F03', 'history', 'a history is read back as it was written')
def f03_history(cx):
    ev, mtx = REH + 'events', REH + 'mtx'
    f = cx.fn(REH + 'serialize')
    s = f['name']
    n = 0
    for p in cx.paths(f, pure=('~ResilveringEvent::serialize$',)):
        if p.outcome != 'return':
            continue
        t = shape(p, p.val)
        cs = p.calls('~ResilveringEvent::serialize$')
        for e in cs:
            cx.ob(bool(held(e, mtx, None)) if True else False, s, 'whole events are written', e.where(), p)
        if not cs:
            cx.ob(t == [] and (nothing(p.facts, size(this(ev))) or any(x.kind == 'loop' and x.info == 'zero' for x in p.events)), s, 'writes all events', None, p)
            continue
        n += 1
        e = cs[0]
        o = e.obj
        ok_ = is_call(o, '[]') and o[2] == this(ev) and covers(p, e, o[3], ZERO, size(this(ev))) or visits(p, e.loops, o, lambda c: c == this(ev))
        cx.ob(bool(ok_), s, 'writes all events', e.where(), p)
        cx.ob(len(t) == 1 and t[0][:1] == ('rep',) and t[0][2] == [e.ret, ('s', '\n')], s, 'each on its line', e.where(), p)
    f = cx.fn(REH + 'deserialize')
    s = f['name']
    eloc = ('f', rloc(f, 1), ev)
    for p, r, F in bool_cases(cx.paths(f, pure=(Q + 'split', PU + 'split'), opaque=('~ResilveringEvent::deserialize$',))):
        sp, de = p.calls('~(quarkdb|ParseUtils)::split$'), p.calls('~ResilveringEvent::deserialize$')
        cx.ob(len(sp) == 1 and sp[0].args == (P(f, 0), ('s', '\n')), s, 'takes the lines apart', None, p)
        if len(sp) != 1:
            continue
        parts = sp[0].ret
        lasts = [size(('call', '[]', parts, sub(size(parts), C(1)))), size(('call', 'back', parts))]
        bad = [e for e in de if not possible(F, ne(e.ret, ZERO))]
        if not r:
            cx.ob(bool(bad) or any(F.entails(ne(x, ZERO)) for x in lasts), s, 'only what is malformed is refused', None, p)
            continue
        n += 1
        cx.ob(any(F.entails(eq(x, ZERO)) for x in lasts), s, 'a line cut short is refused', None, p)
        cx.ob(not bad, s, 'a malformed line is refused', None, p)
        v = p.final(eloc)
        if not de:
            cx.ob(F.entails(le(size(parts), C(1))) and is_empty_(v), s, 'reads every line', None, p)
            continue
        e = de[0]
        i = e.args[0]
        cx.ob(is_call(i, '[]') and i[2] == parts and covers(p, e, i[3], ZERO, sub(size(parts), C(1)))
              or visits(p, e.loops, i, lambda c: c[:1] == ('mut',) and c[1].endswith('pop_back') and c[2] == parts), s, 'reads every line', e.where(), p)
        its = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend' and x.val[1] in e.loops]
        cx.ob(all(x.facts.entails(ne(e.ret, ZERO)) for x in its), s, 'a malformed line is refused', e.where(), p)
        fl = folds(p, v)
        pb = [x for x in p.calls('~vector::(push_back|emplace_back)$') if x.n > e.n]
        cx.ob(len(pb) == 1 and pb[0].args[0] == outv(e, 1) and pb[0].objloc == eloc, s, 'keeps each event, in order', e.where(), p)
        first = [x for x in p.calls('~vector::clear$') if x.n < e.n and x.objloc == eloc] or [x for x in wr(p, eloc) if x.n < e.n and is_empty_(x.val)]
        cx.ob(bool(first), s, 'and nothing else', e.where(), p)
    f = cx.fn(REH + 'append')
    s = f['name']
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        v = p.final(thisloc(ev))
        cx.ob(v[:1] == ('mut',) and v[1].split('::')[-1] in ('push_back', 'emplace_back') and v[2] == this(ev) and v[3] == (P(f, 0),), s, 'adds the event at the end', None, p)
        n += 1
    for f in cx.p.methods('ResilveringHistory'):
        if f['name'].endswith(('::ResilveringHistory', '::deserialize')):
            continue
        for p in cx.paths(f, pure=('~ResilveringEvent::', '~checkEquality'), reads=True):
            for e in p.events:
                if e.kind in ('read', 'write') and e.loc == thisloc(ev) or e.kind == 'call' and e.objloc == thisloc(ev):
                    cx.ob(held(e, mtx, None), f['name'], 'the history is only looked at and changed under its lock', e.where(), p)
    cx.ob(n > 3, REH, 'histories are written and read')


@rule('U07', 'sync', 'the journal is synced once per period as long as it is open')
def u07_sync(cx):
    FT = 'quarkdb::FsyncThread::'
    f = cx.fn(FT + 'main')
    s = f['name']
    stop = 'quarkdb::ThreadAssistant::stopFlag'
    n = 0
    for p in cx.paths(f, opaque=('~ThreadAssistant::',)):
        sy = p.calls('~rocksdb::DB::(SyncWAL|FlushWAL)$')
        req = p.calls('~terminationRequested$')
        wait = p.calls('~ThreadAssistant::wait_(for|until)$')
        F = p.facts
        if p.outcome == 'return':
            cx.ob(bool(req) and F.entails(ne(req[-1].ret, ZERO)), s, 'ends only when told to', None, p)
            continue
        for e in sy:
            n += 1
            okv = ('call', 'rocksdb::Status::ok', e.ret)
            cx.ob(e.name.endswith('SyncWAL') or e.args and e.args[0] == C(1), s, 'syncs', e.where(), p)
            cx.ob(e.objloc == ('d', this(FT + 'mDB')) or 'mDB' in str(e.objloc or e.obj), s, 'the journal', e.where(), p)
            w = [x for x in wait if x.n < e.n]
            cx.ob(len(w) == 1 and w[0].loops == e.loops and 'mPeriod' in str(w[0].args), s, 'after one period', e.where(), p)
            if p.outcome == 'throw':
                cx.ob(F.entails(eq(okv, ZERO)), s, 'stops only if that fails', e.where(), p)
            else:
                cx.ob(F.entails(ne(okv, ZERO)), s, 'stops if that fails', e.where(), p)
        if p.outcome == 'loop':
            cx.ob(len(sy) == 1, s, 'syncs each time', None, p)
            cx.ob(all(F.entails(eq(x.ret, ZERO)) for x in req), s, 'until told to end', None, p)
        for e in p.events:
            cx.ob(e.kind != 'caught', s, 'nothing is swallowed', e.where(), p) if e.kind == 'caught' else None
    f = cx.fn(FT + 'FsyncThread')
    s = f['name']
    for p in cx.paths(f, opaque=('~AssistedThread::',)):
        rs = p.calls('~AssistedThread::reset$')
        n += 1
        cx.ob(len(rs) == 1 and 'FsyncThread::main' in str(rs[0].args) and ('this',) in list(subterms(rs[0].args)) and p.final(thisloc(FT + 'mDB')) == P(f, 0) and p.final(thisloc(FT + 'mPeriod')) == P(f, 1), s, 'starts syncing', None, p)
        cx.ob(all(e.n < rs[0].n for e in p.events if e.kind == 'write' and e.loc in (thisloc(FT + 'mDB'), thisloc(FT + 'mPeriod'))), s, 'once it knows what', None, p)
    J = 'quarkdb::RaftJournal::'
    f = cx.fn(J + 'initialize')
    s = f['name']
    ft = thisloc(J + 'fsyncThread')
    for p in cx.paths(f, opaque=('~RaftJournal::(get|set|exist|ensure|initializeFsync|fetch)', '~FsyncThread::', '~parseServer$', '~RaftMembers::')):
        if p.outcome != 'return':
            continue
        nw = [e for e in p.events if e.kind == 'new' and 'FsyncThread' in (e.name or '')] + p.calls('~make_unique')
        v = p.final(ft)
        cx.ob(len(nw) == 1 and not is_zero(v) and v != ('null',), s, 'an open journal is synced', None, p)
        if nw:
            n += 1
            ct = [e for e in p.calls('~FsyncThread::FsyncThread$')]
            a = ct[0].args if ct else nw[0].args
            cx.ob(len(a) == 2 and a[0] == p.final(thisloc(J + 'db')) and (a[1] == C(1) or is_num(a[1]) and a[1][1] > 0), s, 'with a period', None, p)
    w = {short_(g) for g in writers(cx, J + 'fsyncThread')}
    cx.ob(w <= {'initialize', '~RaftJournal', 'RaftJournal'}, J + 'fsyncThread', 'nobody else stops it: ' + ', '.join(sorted(w)), 'RaftJournal.hh')
    f = cx.fn(J + '~RaftJournal')
    for p in cx.paths(f, opaque=('~FsyncThread::',)):
        dl = [e for e in p.events if e.kind == 'delete']
        cl = [e for e in p.events if e.n < (dl[0].n if dl else 10 ** 9) and (e.kind == 'call' and e.objloc == ft and e.name.endswith('::reset') or e.kind == 'write' and e.loc == ft)]
        if dl:
            n += 1
            cx.ob(bool(cl), f['name'], 'syncing ends before the journal is closed', dl[0].where(), p)
    cx.ob(n > 4, FT, 'the journal is synced')


def short_(f):
    return f['name'].split('::')[-1]
