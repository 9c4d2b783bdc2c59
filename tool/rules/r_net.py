"""Bytes from and to clients: C10, C13."""
from qdb.common import *
from rules.r_tx import one_of, none_of, is_empty, RR

RP = 'quarkdb::RedisParser::'
BR = 'quarkdb::BufferedReader::'
LK = 'quarkdb::Link::'


def wr(p, loc):
    return [e for e in p.events if e.kind == 'write' and e.loc == loc]


def rloc(f, i):
    """location a reference parameter stands for"""
    return ('var', f['params'][i]['id'], 0)


def never(F):
    """facts no execution satisfies: a character of an empty text is zero"""
    return any(l[0] == 'eq' and l[2] != 0 and any(is_call(t, '[]') and t[2] == ('s', '') for t, c in l[1]) for l in F.all())


@rule('C10', 'numbers', 'a count or length is taken only from a whole, terminated line that is one number in range')
def c10_numbers(cx):
    f = cx.fn(RP + 'readInteger')
    s = f['name']
    ci = thisloc(RP + 'current_integer')
    n = slow = 0
    for p in cx.paths(f, opaque=('~BufferedReader::', '~quotes$')):
        F = p.facts
        if p.outcome not in ('return', 'loop') or never(F):
            continue
        rd = p.calls('~BufferedReader::consume$')
        for e in rd:
            cx.ob(e.args[0] == C(1), s, 'bytes are taken one at a time', e.where(), p)
            cx.ob(F.entails(gt(e.ret, ZERO)) or p.outcome == 'return' and p.val == e.ret, s, 'goes on only once there is one', e.where(), p)
        for e in rd:
            apps = [x for x in wr(p, ci) if x.n > e.n and x.loops == e.loops and x.loops]
            if F.entails(gt(e.ret, ZERO)) and p.outcome == 'return':
                v = apps[0].val if apps else None
                ok_ = v is not None and v[:1] == ('cat',) and len(flat_(v)) == 2 and flat_(v)[0][:1] in (('hav',), ('init',)) and flat_(v)[1] == outv(e, 1)
                cx.ob(ok_, s, 'every byte taken is kept until the line is complete', e.where(), p)
        out = rloc(f, 1)
        got = p.final(out)
        done = F.entails(gt(p.val, ZERO)) if p.val is not None else False
        if not done:
            if p.outcome == 'return':
                cx.ob(F.entails(le(p.val, ZERO)), s, 'the outcome is known', None, p)
                cx.ob(not [e for e in p.events if e.kind == 'write' and e.loc == out], s, 'nothing is delivered without a number', None, p)
                fail = [e for e in rd if F.entails(le(e.ret, ZERO))]
                if fail:
                    slow += 1
                    cx.ob(p.val == fail[-1].ret, s, 'waits when the line is not complete', None, p)
                else:
                    cx.ob(F.entails(lt(p.val, ZERO)), s, 'a malformed line is an error', None, p)
            continue
        n += 1
        st = p.calls('~^(std::)?strtol{1,2}$')
        cx.ob(len(st) == 1, s, 'the line is parsed once', None, p)
        if len(st) != 1:
            continue
        st = st[0]
        txt = sub(st.args[0], C(1))
        txt = txt[1] if isinstance(txt, tuple) and txt[:1] == ('cstr',) else txt
        er = txt if txt[:1] == ('mut',) and txt[1].endswith('::erase') else None
        line = er[2] if er else None
        cx.ob(er is not None and er[3] == (sub(size(line), C(2)), C(2)), s, 'without its terminator', st.where(), p)
        if er is None:
            continue
        cx.ob(line[:1] == ('hav',) and line[2] == ci, s, 'the line is what was taken so far', st.where(), p)
        cx.ob(F.entails(eq(('call', '[]', line, ZERO), P(f, 0))), s, 'which starts as it must', st.where(), p)
        cx.ob(F.entails(eq(('call', '[]', line, sub(size(line), C(2))), C(13))), s, 'and ends in a carriage return', st.where(), p)
        exits = [e for e in p.events if e.kind == 'loop' and e.info == 'exit']
        nl = [e for e in exits if any(l[0] == 'eq' and l[2] == 10 and any(is_call(t, '[]') and t[3] == ZERO or is_call(t, 'back', 'front') for t, c in l[1]) for l in e.facts.all())]
        cx.ob(bool(nl), s, 'and a line feed', st.where(), p)
        end = ('out', st.n, st.name, 1, ())
        cx.ob(F.entails(eq(end, add(txt, size(txt)))), s, 'all of it is the number', st.where(), p)
        cx.ob(F.entails(ne(end, add(txt, C(1)))), s, 'which is not empty', st.where(), p)
        cx.ob(st.args[2] == C(10), s, 'in decimal', st.where(), p)
        cx.ob(F.entails(ge(st.ret, ZERO)) and F.entails(le(st.ret, C(2 ** 31 - 3))), s, 'in range', st.where(), p)
        cx.ob(got == st.ret, s, 'is what is delivered', st.where(), p)
        cx.ob(p.final(ci) == ('s', '') , s, 'and the line is done with', None, p)
    cx.ob(n and slow, s, 'reads numbers')


def flat_(v):
    out = []
    for x in v[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            out += list(x)
        else:
            out.append(x)
    return out


@rule('C10', 'elements', 'each element is as long as announced and followed by its terminator')
def c10_elements(cx):
    f = cx.fn(RP + 'readString')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~BufferedReader::', '~PinnedBuffer::remove_suffix$')):
        F = p.facts
        if p.outcome != 'return':
            continue
        rd = p.calls('~BufferedReader::consume$')
        cx.ob(len(rd) == 1 and rd[0].args[0] == add(P(f, 0), C(2)) and rd[0].arglocs[1] == rloc(f, 1), s, 'takes the announced bytes and the terminator, at once', None, p)
        if len(rd) != 1:
            continue
        o = outv(rd[0], 1)
        if F.entails(le(rd[0].ret, ZERO)):
            cx.ob(p.val == rd[0].ret, s, 'waits for all of it', None, p)
            continue
        if F.entails(lt(p.val, ZERO)):
            last = [eq(('call', '[]', o, sub(size(o), C(i))), C(k)) for i, k in ((2, 13), (1, 10))]
            cx.ob(one_of(F, [tneg(t) for t in last]), s, 'refuses only another terminator', None, p)
            continue
        n += 1
        cx.ob(F.entails(eq(('call', '[]', o, sub(size(o), C(2))), C(13))) and F.entails(eq(('call', '[]', o, sub(size(o), C(1))), C(10))), s, 'the terminator follows', None, p)
        rm = p.calls('~PinnedBuffer::remove_suffix$')
        cx.ob(len(rm) == 1 and rm[0].args[0] == C(2), s, 'and is taken off', None, p)
        cx.ob(F.entails(gt(p.val, ZERO)), s, 'is delivered', None, p)
    cx.ob(n, s, 'delivers elements')
    f = cx.fn(RP + 'readElement')
    s = f['name']
    es = thisloc(RP + 'element_size')
    n = new = 0
    for p in cx.paths(f, opaque=('~RedisParser::read(Integer|String)$',)):
        F = p.facts
        if p.outcome != 'return':
            continue
        ri, rs = p.calls('~readInteger$'), p.calls('~readString$')
        if ri:
            new += 1
            cx.ob(len(ri) == 1 and ri[0].args[0] == C(36) and ri[0].arglocs[1] == es and F.entails(eq(this(RP + 'element_size'), C(-1))), s, 'the length is read once for each element', None, p)
            if F.entails(le(ri[0].ret, ZERO)):
                cx.ob(p.val == ri[0].ret and not rs, s, 'waits for the length', None, p)
                continue
            cx.ob(F.entails(gt(ri[0].ret, ZERO)), s, 'goes on only once the length is there', None, p)
        else:
            cx.ob(F.entails(ne(this(RP + 'element_size'), C(-1))), s, 'the length is read', None, p)
        if rs:
            n += 1
            cx.ob(len(rs) == 1 and rs[0].args[0] == p.final(es) and rs[0].arglocs[1] == rloc(f, 0) and p.val == rs[0].ret, s, 'takes what was announced', None, p)
            cx.ob(not wr(p, es) or wr(p, es)[-1].n <= rs[0].n, s, 'remembers the length until the element is complete', None, p)
            cx.ob(F.entails(ne(P(f, 1), ZERO)) or F.entails(lt(rs[0].args[0], C(1048576))), s, 'an unauthenticated client gets no big buffers', None, p)
            z = this(RP + 'encounteredZeroSize')
            zf = p.final(thisloc(RP + 'encounteredZeroSize'))
            if ri:
                cx.ob(not possible(F, eq(rs[0].args[0], ZERO), eq(zf, ZERO)), s, 'remembers elements of no length', None, p)
                cx.ob(zf == z or not possible(F, ne(rs[0].args[0], ZERO)), s, 'and only those', None, p)
        else:
            cx.ob(F.entails(lt(p.val, ZERO)) and F.entails(eq(P(f, 1), ZERO)), s, 'refuses only what is too big for an unauthenticated client', None, p)
    cx.ob(n and new, s, 'reads elements')


@rule('C10', 'requests', 'a request is delivered once all of its elements are there')
def c10_requests(cx):
    f = cx.fn(RP + 'fetch')
    s = f['name']
    rs, ce, es = (thisloc(RP + x) for x in ('request_size', 'current_element', 'element_size'))
    n = wait = fresh = 0
    for p in cx.paths(f, opaque=('~RedisParser::read(Integer|Element)$', '~RedisRequest::(parseCommand|clear|resize)$', '~toPrintable')):
        F = p.facts
        if p.outcome == 'throw':
            continue
        ri = p.calls('~readInteger$')
        clr, rsz = p.calls('~RedisRequest::clear$'), p.calls('~RedisRequest::resize$')
        if ri:
            fresh += 1
            cx.ob(len(ri) == 1 and ri[0].args[0] == C(42) and ri[0].arglocs[1] == rs and F.entails(eq(this(RP + 'request_size'), ZERO)), s, 'the number of elements is read once for each request', None, p)
            cx.ob(len(clr) == 1 and clr[0].n < ri[0].n, s, 'a new request forgets the previous one', None, p)
            if F.entails(le(ri[0].ret, ZERO)):
                cx.ob(p.val == ri[0].ret, s, 'waits for the number of elements', None, p)
                continue
            cx.ob(F.entails(gt(ri[0].ret, ZERO)), s, 'goes on only once the number is there', None, p)
            cnt = outv(ri[0], 1)
            if rsz:
                cx.ob(len(rsz) == 1 and rsz[0].args[0] == cnt and F.entails(ne(cnt, ZERO)), s, 'has as many elements as announced, and at least one', None, p)
                cx.ob(F.entails(ne(P(f, 1), ZERO)) or F.entails(lt(cnt, C(5))), s, 'an unauthenticated client gets no big requests', None, p)
                r1 = rsz[0]
                e0 = [x for x in wr(p, es) if x.n < r1.n or True]
                cx.ob(bool(wr(p, es)) and F.entails(eq(wr(p, es)[0].val, C(-1))) and bool(wr(p, ce)) and F.entails(eq(wr(p, ce)[0].val, ZERO)), s, 'starts with the first element', None, p)
            else:
                cx.ob(F.entails(lt(p.val, ZERO)) and (F.entails(eq(cnt, ZERO)) or F.entails(eq(P(f, 1), ZERO)) and F.entails(ge(cnt, C(5)))), s, 'refuses only empty requests, and big ones of unauthenticated clients', None, p)
                continue
        else:
            cnt = this(RP + 'request_size')
            cx.ob(F.entails(ne(cnt, ZERO)) and not clr and not rsz, s, 'goes on where it stopped', None, p)
        re_ = p.calls('~readElement$')
        for e in re_:
            l = e.arglocs[0]
            cur = ('init', ce)
            ix = l[2] if l is not None and l[0] == 'ix' else None
            cx.ob(ix is not None and l[1] == ('f', rloc(f, 0), RR + 'contents'), s, 'elements go into the request', e.where(), p)
            if ix is None:
                continue
            begin = [x for x in loop_events(p, e.loops[-1]) if x.info == 'begin']
            ent = [a for x in begin for v, a, b in x.args if b == ix] or [x.val for x in wr(p, ce) if x.n < begin[0].n][-1:] or [this(RP + 'current_element')]
            cx.ob(len(ent) == 1 and (ent[0] == (ZERO if ri else this(RP + 'current_element')) or F.entails(eq(ent[0], ZERO)) and bool(ri)), s, 'each into its place', e.where(), p)
            cx.ob(e.facts.entails(lt(ix, cnt)), s, 'no more than announced', e.where(), p)
        bad = [e for e in re_ if F.entails(le(e.ret, ZERO))]
        if p.outcome == 'loop':
            continue
        if bad:
            wait += 1
            cx.ob(p.val == bad[-1].ret, s, 'waits for each element', None, p)
            cx.ob(not [x for x in wr(p, rs) if x.n > bad[-1].n] and not [x for x in wr(p, ce) + wr(p, es) if x.n > bad[-1].n], s, 'and goes on there later', None, p)
            continue
        done = F.entails(gt(p.val, ZERO))
        last = [b for e in p.events if e.kind == 'loop' and e.info in ('exit', 'zero') for v, a, b in e.args or () for b in (a, b) if b is not None]
        cx.ob(any(F.entails(ge(x, cnt)) for x in last + [p.final(ce), this(RP + 'current_element')] if x is not None) or bool(ri) and F.entails(le(cnt, ZERO)), s, 'no fewer than announced', None, p)
        for e in re_:
            its = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend' and x.val[1] in e.loops]
            cx.ob(all(x.facts.entails(gt(e.ret, ZERO)) for x in its) and bool([x for x in wr(p, es) if x.n > e.n and F.entails(eq(x.val, C(-1)))]), s, 'the next element has its own length', e.where(), p)
            l = e.arglocs[0]
            mv = [x for x in wr(p, ce) if x.n > e.n and x.loops]
            st = [(a, b) for x in its for v, a, b in x.args if a == l[2] and b is not None]
            if l is not None and l[0] == 'ix' and its:
                cx.ob([x.val for x in mv] == [add(l[2], C(1))] or [b for a, b in st] == [add(l[2], C(1))], s, 'one after the other', e.where(), p)
        if done:
            n += 1
            cx.ob(F.entails(eq(p.final(rs), ZERO)), s, 'the next request starts afresh', None, p)
            cx.ob(len(p.calls('~parseCommand$')) == 1, s, 'its command is looked up', None, p)
            z = [x for x in (p.final(thisloc(RP + 'encounteredZeroSize')),)]
            cx.ob(F.entails(eq(z[0], ZERO)), s, 'has no element without length', None, p)
    cx.ob(n and wait and fresh, s, 'delivers requests')


def loop_exit(p, loc):
    for e in reversed(p.events):
        if e.kind == 'loop' and e.info == 'exit':
            for v, a, b in e.args or ():
                if b is not None and b[:1] == ('hav',) and b[2] == loc:
                    return b
    return None


@rule('C10', 'bytes', 'buffered bytes are handed out in order, only when all of them are there')
def c10_bytes(cx):
    pr, pw, bs, bf = (BR + x for x in ('position_read', 'position_write', 'buffer_size', 'buffers'))
    f = cx.fn(BR + 'canConsume')
    s = f['name']
    have = sub(add(sub(('op', '*', size(this(bf)), this(bs)), this(pr)), this(pw)), this(bs))
    n = 0
    for p in cx.paths(f, opaque=('~BufferedReader::readFromLink$', '~Link::')):
        F = p.facts
        rl = p.calls('~readFromLink$')
        if p.outcome != 'return':
            continue
        if not rl:
            n += 1
            d = sub(p.val, P(f, 0))
            cx.ob(mul_eq(p.val, have), s, 'knows how many bytes are buffered', None, p)
            cx.ob(F.entails(ge(p.val, P(f, 0))), s, 'says so only if that is enough', None, p)
            continue
        if F.entails(lt(rl[0].ret, ZERO)):
            cx.ob(p.val == rl[0].ret, s, 'errors are passed on', None, p)
            continue
        if F.entails(eq(p.val, ZERO)):
            cx.ob(F.entails(lt(add(base_of(rl[0], P(f, 0)), rl[0].ret), P(f, 0))), s, 'waits only if bytes are missing', None, p)
            continue
        n += 1
        cx.ob(mul_eq(sub(p.val, rl[0].ret), have) and F.entails(ge(p.val, P(f, 0))), s, 'counts what came in', None, p)
    cx.ob(n > 1, s, 'counts')
    f = cx.fn(BR + 'readFromLink')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~MemoryRegion::', '~Link::')):
        for e in p.calls('~Link::Recv$'):
            n += 1
            F = e.facts
            off = [x for x in p.calls('~MemoryRegion::data$') if x.n < e.n]
            cx.ob(bool(off) and deref_back(off[-1]), s, 'reads into the last buffer', e.where(), p)
            cur = sub(e.args[0], off[-1].ret) if off else None
            cx.ob(cur is not None and add(cur, e.args[1]) == this(bs) or F.entails(le(add(cur, e.args[1]), this(bs))), s, 'never past its end', e.where(), p)
            cx.ob(cur is not None and cur[:1] in (('hav',), ('init',)) and cur[-1] == thisloc(pw), s, 'after what is there', e.where(), p)
            grown = [x for x in p.calls('~deque::(emplace_back|push_back)$') if x.n > e.n]
            nxt = [x for x in p.calls('~Link::Recv$') if x.n > e.n]
            ws = wr(p, thisloc(pw))
            after = [x for x in ws if x.n > e.n]
            G = p.facts
            if G.entails(lt(e.ret, ZERO)):
                cx.ob(p.val == e.ret and not after, s, 'errors are passed on', e.where(), p)
                continue
            if grown:
                cx.ob(len(grown) == 1 and G.entails(ge(e.ret, e.args[1])) and len(after) == 1 and G.entails(eq(after[0].val, ZERO)), s, 'a new buffer only when the last one is full', e.where(), p)
                mr = [x for x in subterms(grown[0].args[0]) if is_call(x, '~MemoryRegion::Construct$') or x[:1] == ('ret',) and x[2].endswith('::Construct')]
                cx.ob(any(this(bs) in list(subterms(x)) for x in mr), s, 'of the same size', e.where(), p)
            else:
                cx.ob(len(after) == 1 and after[0].val == add(cur, e.ret), s, 'remembers how far it got', e.where(), p)
                cx.ob(G.entails(lt(e.ret, e.args[1])), s, 'a full buffer is followed by another', e.where(), p)
            if p.outcome == 'return':
                t = sub(p.val, e.ret)
                ent = [a for x in p.events if x.kind == 'loop' and x.info == 'begin' for v, a, b in x.args if b == t]
                cx.ob(t == ZERO or t[:1] == ('hav',) and ent == [ZERO], s, 'counts what came in', e.where(), p)
    cx.ob(n, s, 'reads')
    f = cx.fn(BR + 'consumeInternal')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~MemoryRegion::',)):
        if p.outcome != 'return':
            continue
        cx.ob(p.val == P(f, 0), s, 'takes what was asked for', None, p)
        its = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
        if not its:
            cx.ob(p.facts.entails(le(P(f, 0), ZERO)), s, 'takes all of it', None, p)
            continue
        n += 1
        it = its[0]
        F = it.facts
        ws = [e for e in wr(p, rloc(f, 1)) if e.loops]
        parts = flat_(ws[0].val) if len(ws) == 1 and ws[0].val[:1] == ('cat',) else []
        ok_ = len(parts) == 2 and parts[1][:1] == ('text',)
        cx.ob(ok_, s, 'appends to what was taken', it.where(), p)
        if not ok_:
            continue
        ptr, ln = parts[1][1:3] if len(parts[1]) == 3 else parts[1][1]
        dt = [e for e in p.calls('~MemoryRegion::data$')]
        cx.ob(len(dt) == 1 and front_of(dt[0]), s, 'from the first buffer', it.where(), p)
        pos = sub(ptr, dt[0].ret) if dt else None
        cx.ob(pos is not None and pos[:1] == ('hav',) and pos[2] == thisloc(pr), s, 'where the last one stopped', it.where(), p)
        cx.ob(F.entails(le(add(pos, ln), this(bs))), s, 'not past its end', it.where(), p)
        rem = [(v, a, b) for v, a, b in it.args if b is not None and sub(a, b) == ln]
        cx.ob(len(rem) == 1, s, 'what remains shrinks by what was taken', it.where(), p)
        if len(rem) == 1:
            v = rem[0][0]
            cx.ob([a for e in p.events if e.kind == 'loop' and e.info == 'begin' for v2, a, b in e.args if v2 == v] == [P(f, 0)] and all(e.facts.entails(le(b, ZERO)) for e in p.events if e.kind == 'loop' and e.info == 'exit' for v2, a, b in e.args if v2 == v), s, 'until all of it was', it.where(), p)
            cx.ob(F.entails(le(ln, rem[0][1])), s, 'not more than asked for', it.where(), p)
        ends = wr(p, thisloc(pr))
        pop = p.calls('~deque::pop_front$')
        if pop:
            cx.ob(len(pop) == 1 and F.entails(ge(add(pos, ln), this(bs))) and F.entails(eq(ends[-1].val, ZERO)), s, 'a buffer is dropped when it is used up', it.where(), p)
        else:
            cx.ob(F.entails(lt(add(pos, ln), this(bs))) and ends and ends[-1].val == add(pos, ln), s, 'the position moves by what was taken', it.where(), p)
        first = [e for e in wr(p, rloc(f, 1)) if not e.loops]
        cx.ob(bool(first) and first[0].val == ('s', ''), s, 'starts empty', None, p)
    cx.ob(n, s, 'takes bytes')
    m = k = 0
    for f in cx.p.fns(BR + 'consume'):
        s = f['key'].split('::')[-1]
        for p in cx.paths(f, opaque=('~BufferedReader::(canConsume|consumeInternal)$', '~MemoryRegion::')):
            if p.outcome != 'return':
                continue
            cc = p.calls('~canConsume$')
            cx.ob(len(cc) == 1 and cc[0].args[0] == P(f, 0), s, 'looks whether all bytes are there', None, p)
            if len(cc) != 1:
                continue
            ci = p.calls('~consumeInternal$')
            F = p.facts
            if F.entails(le(cc[0].ret, ZERO)):
                cx.ob(p.val == cc[0].ret and not ci and not wr(p, thisloc(pr)), s, 'takes nothing otherwise', None, p)
                continue
            m += 1
            cx.ob(F.entails(gt(cc[0].ret, ZERO)), s, 'takes bytes only if all are there', None, p)
            if ci:
                cx.ob(len(ci) == 1 and ci[0].args[0] == P(f, 0) and p.val == ci[0].ret and (ci[0].arglocs[1] == rloc(f, 1) or ci[0].arglocs[1] is not None and ci[0].arglocs[1][:2] == ('f', rloc(f, 1))), s, 'into what was given', None, p)
                continue
            k += 1
            w = p.final(rloc(f, 1))
            PBF = 'quarkdb::PinnedBuffer::'
            dt = p.calls('~MemoryRegion::data$')
            cx.ob(len(dt) == 1 and front_of(dt[0]) and Engine.project(w, PBF + 'regionPtr') == add(dt[0].ret, this(pr)) and Engine.project(w, PBF + 'regionSize') == P(f, 0) and p.val == P(f, 0), s, 'refers to the bytes themselves', None, p)
            cx.ob(F.entails(le(add(this(pr), P(f, 0)), this(bs))), s, 'only if they are all in the first buffer', None, p)
            rg = Engine.project(w, PBF + 'region')
            cx.ob(rg is not None and any(l == thisloc(bf) for l in locs_in(rg)), s, 'and keeps the buffer alive', None, p)
            cx.ob(p.final(thisloc(pr)) == add(this(pr), P(f, 0)), s, 'the position moves by what was taken', None, p)
    cx.ob(m > 1 and k, BR + 'consume', 'hands out bytes')
    for f in cx.p.fns(BR + 'BufferedReader'):
        for p in cx.paths(f, opaque=('~MemoryRegion::',)):
            if p.outcome != 'return':
                continue
            mk = p.calls('~MemoryRegion::Construct$')
            cx.ob(p.final(thisloc(pr)) == ZERO and p.final(thisloc(pw)) == ZERO and len(mk) == 1 and mk[0].args[0] == p.final(thisloc(bs)) and mk[0].ret in list(subterms(p.final(thisloc(bf)))), f['name'], 'starts with one empty buffer', None, p)
    for fld, who in ((pr, ('consume', 'consumeInternal', 'BufferedReader')), (pw, ('readFromLink', 'BufferedReader')), (bf, ('consumeInternal', 'readFromLink', 'BufferedReader', '~BufferedReader'))):
        w = {g['name'] for g in writers(cx, fld)}
        cx.ob(w <= {BR + x for x in who}, fld, 'changes only here: ' + ', '.join(sorted(w)), 'BufferedReader.cc')


def mul_eq(a, b):
    return sub(a, b) == ZERO or sub(a, b) == C(0)


def base_of(e, ln):
    """readFromLink is asked for what is missing: the bytes there were"""
    return sub(ln, e.args[0])


def locs_in(v):
    return [x[-1] for x in subterms(v) if x[:1] in (('init',), ('hav',))]


def deref_back(e):
    v = e.obj
    l = e.objloc
    for x in list(subterms(l or ())) + list(subterms(v or ())):
        if is_call(x, 'back', '~::back$'):
            return True
        if is_call(x, '[]') and len(x) == 4 and sub(x[3], size(x[2])) == C(-1):
            return True
    return False


def front_of(e):
    for x in list(subterms(e.objloc or ())) + list(subterms(e.obj or ())):
        if is_call(x, 'front', '~::front$'):
            return True
        if is_call(x, '[]') and len(x) == 4 and x[3] == ZERO:
            return True
    return False
