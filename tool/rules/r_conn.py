"""What a connection sends, and in which order: C13, C14."""
import re
from qdb.common import *
from rules.r_health import part

Q = 'quarkdb::'
LK = Q + 'Link::'
BW = Q + 'BufferedWriter::'
PQ = Q + 'PendingQueue::'
PR = PQ + 'PendingRequest::'
CN = Q + 'Connection::'
TLS = Q + 'Link::tlsfilter'
RAWOUT = ('~XrdLink::Send$', LK + 'asioSend', LK + 'fdSend', LK + 'streamSend')
BACK = ('link', 'asio', 'fd', 'stream')


def lits_of(F):
    return [t for l in F.all() if l[0] not in ('and', 'or') for t, k in l[1]]


def backend(F):
    """which transport the link uses according to F"""
    link, sock, fd = (this(LK + x) for x in ('link', 'asioSocket', 'fd'))
    if F.entails(ne(link, ZERO)):
        return 'link'
    if not F.entails(eq(link, ZERO)):
        return None
    if F.entails(ne(sock, ZERO)):
        return 'asio'
    if not F.entails(eq(sock, ZERO)):
        return None
    if F.entails(ge(fd, ZERO)):
        return 'fd'
    if F.entails(lt(fd, ZERO)):
        return 'stream'
    return None


@rule('C13', 'one-way', 'bytes reach the transport only through Send, and through TLS if it is on')
def c13_one_way(cx):
    opq = ('~TlsFilter::', '~Link::(asio|fd|stream)(Send|Recv|Close)$', '~Link::raw(Send|Recv)$')
    f = [g for g in cx.p.fns(LK + 'Send') if len(g['params']) == 2]
    cx.need(f, 'Link::Send')
    f = f[0]
    s = f['name']
    dead, tls = this(LK + 'dead'), None
    n = {'dead': 0, 'tls': 0, 'raw': 0}
    for p in cx.paths(f, opaque=opq):
        if p.outcome != 'return':
            continue
        F = p.facts
        out = [e for e in p.events if e.kind == 'call' and e.name and (e.name.endswith('TlsFilter::send') or e.name in (LK + 'rawSend', LK + 'asioSend', LK + 'fdSend', LK + 'streamSend') or e.name.endswith('XrdLink::Send'))]
        act = [t for t in lits_of(F) if t[:1] == ('init',) and last_field(t[1]) and last_field(t[1]).endswith('TlsConfig::active')]
        if not out:
            n['dead'] += 1
            cx.ob(F.entails(ne(dead, ZERO)) and F.entails(lt(p.val, ZERO)), s, 'nothing is sent only on a dead link, which is an error', f['file'], p)
            continue
        cx.ob(F.entails(eq(dead, ZERO)), s, 'nothing is sent on a dead link', f['file'], p)
        cx.ob(len(out) == 1, s, 'sent once', f['file'], p)
        e = out[0]
        cx.ob(tuple(e.args[:2]) == (P(f, 0), P(f, 1)), s, 'all of it', e.where(), p)
        intls = e.name.endswith('TlsFilter::send')
        n['tls' if intls else 'raw'] += 1
        cx.ob(bool(act) and (F.entails(ne(act[0], ZERO)) if intls else F.entails(eq(act[0], ZERO))), s, 'through TLS if it is on', e.where(), p)
        d = p.final(thisloc(LK + 'dead'))
        if not F.entails(eq(e.ret, P(f, 1))):
            cx.ob(not possible(F, ne(e.ret, P(f, 1))) or d == TRUE or d is not None and F.entails(ne(d, ZERO)), s, 'a link which did not take everything is dead', e.where(), p)
        cx.ob(p.val == e.ret or F.entails(eq(p.val, e.ret)) or F.entails(ne(e.ret, P(f, 1))) and F.entails(ne(p.val, P(f, 1))), s, 'the outcome is handed on', e.where(), p)
    cx.ob(all(n.values()), s, 'dead, TLS and clear are told apart', f['file'])
    for g in cx.p.fns(LK + 'Send'):
        if len(g['params']) != 1:
            continue
        for p in cx.paths(g, opaque=(LK + 'Send',) + opq):
            cs = p.calls(LK + 'Send')
            cx.ob(len(cs) == 1 and cs[0].args[0] in (P(g, 0), ('cstr', P(g, 0)), ('call', 'data', P(g, 0))) and p.facts.entails(eq(cs[0].args[1], size(P(g, 0)))) and p.val == cs[0].ret, s, 'a text is sent as a whole', g['file'], p)
    # nobody else goes round TLS
    allow = {LK + 'rawSend': ('Send',), LK + 'rawRecv': ('Recv', 'recvStatus')}
    for k in ('asio', 'fd', 'stream'):
        allow[LK + k + 'Send'] = ('rawSend',)
        allow[LK + k + 'Recv'] = ('rawRecv',)
    helpers = lambda g: g.get('cls') == Q + 'Link' and g.get('acc') == 'private'
    for callee, who in allow.items():
        for g, c in callers(cx, callee):
            nm = short(g['name']).split('::')[-1]
            cx.ob(g.get('cls') == Q + 'Link' and (nm in who or nm == 'Link' or helpers(g)), g['name'], 'does not go round Send and Recv', g['file'])
    for name in ('XrdLink::Send', 'XrdLink::Recv', 'asio::write', 'asio::read'):
        for g, c in callers(cx, name):
            cx.ob(g.get('cls') == Q + 'Link', g['name'], 'only the link talks to its transport', g['file'])
    # the filter's own way out and in
    n = 0
    for g in cx.p.fns(LK + 'Link'):
        for i in g.get('inits') or ():
            t = repr(i)
            if 'tlsfilter' in t and 'bind' in t or ('tlsfilter' in t and 'lambda' in t):
                n += 1
                cx.ob('rawSend' in t and 'recvStatus' in t and (LK + 'Send') not in t, g['name'], 'the TLS layer writes and reads the transport', g['file'])
    cx.need(n, 'the TLS filter of a link')


@rule('C13', 'transport', 'one link uses one transport for sending, receiving and closing')
def c13_transport(cx):
    for op, what in (('Send', 'rawSend'), ('Recv', 'rawRecv'), ('Close', 'Close')):
        f = cx.fn(LK + what)
        s = f['name']
        seen = set()
        for p in cx.paths(f, opaque=('~TlsFilter::', '~Link::(asio|fd|stream)(Send|Recv|Close)$')):
            if p.outcome != 'return':
                continue
            b = backend(p.facts)
            out = [e for e in p.events if e.kind == 'call' and e.name and (e.name.endswith('XrdLink::' + op) or e.name in [LK + x + op for x in BACK[1:]])]
            cx.ob(b is not None, s, 'the transport is known', f['file'], p)
            seen.add(b)
            want = 'XrdLink::' + op if b == 'link' else LK + (b or '') + op
            if op == 'Close' and b == 'link' and p.facts.entails(ne(this(LK + 'xrdLinkCloseDisabled'), ZERO)):
                cx.ob(not out, s, 'someone else closes it', f['file'], p)
                continue
            cx.ob(len(out) == 1 and out[0].name.endswith(want), s, 'the one of this link, once', f['file'], p)
            if len(out) == 1:
                k = len(f['params'])
                cx.ob(tuple(out[0].args[:k]) == tuple(P(f, i) for i in range(k)) and p.val == out[0].ret, s, 'hands on what it was given and what came back', out[0].where(), p)
            if op == 'Close':
                tc = p.calls('~TlsFilter::close$')
                act = [t for t in lits_of(p.facts) if t[:1] == ('init',) and last_field(t[1]) and last_field(t[1]).endswith('TlsConfig::active')]
                cx.ob(not act or len(tc) == (1 if p.facts.entails(ne(act[0], ZERO)) else 0), s, 'TLS is shut down first', f['file'], p)
        cx.ob(seen >= set(BACK), s, 'all transports are served', f['file'])
    # closing comes last: only the destructor of a link closes it
    for g, c in callers(cx, LK + 'Close'):
        cx.ob(g.get('cls') == Q + 'Link' and '~' in g['name'] + g['key'] or '<dtor>' in g['key'] + g['name'], g['name'], 'a link is closed when it goes away', g['file'])
    for k in ('asio', 'fd', 'stream'):
        for g, c in callers(cx, LK + k + 'Close'):
            cx.ob(g['name'] == LK + 'Close', g['name'], 'a link is closed when it goes away', g['file'])


@rule('C13', 'status', 'what a transport reports is understood')
def c13_status(cx):
    f = cx.fn(LK + 'recvStatus')
    s = f['name']
    for p in cx.paths(f, opaque=('~Link::rawRecv$',)):
        if p.outcome != 'return':
            continue
        rc = p.calls(LK + 'rawRecv')
        cx.ob(len(rc) == 1 and tuple(rc[0].args) == tuple(P(f, i) for i in range(3)), s, 'reads the transport once', f['file'], p)
        v = p.val
        ok_ = v[:1] == ('ctor',) and len(v[2]) == 3
        cx.ob(ok_, s, 'makes a status', f['file'], p)
        if not ok_ or len(rc) != 1:
            continue
        r, F = rc[0].ret, p.facts
        alive = F.entails(ne(v[2][0], ZERO))
        gone = F.entails(eq(v[2][0], ZERO))
        cx.ob(alive and not possible(F, lt(r, ZERO)) and F.entails(eq(v[2][2], r)) or gone and F.entails(lt(r, ZERO)), s, 'an error ends the connection, the rest is the number of bytes', f['file'], p)
    f = cx.fn(LK + 'Recv')
    s = f['name']
    n = {'tls': 0, 'raw': 0}
    for p in cx.paths(f, opaque=('~TlsFilter::', '~Link::rawRecv$')):
        if p.outcome != 'return':
            continue
        F = p.facts
        inn = p.calls('~TlsFilter::recv$')
        raw = p.calls(LK + 'rawRecv')
        act = [t for t in lits_of(F) if t[:1] == ('init',) and last_field(t[1]) and last_field(t[1]).endswith('TlsConfig::active')]
        cx.ob(len(inn) + len(raw) == 1 and act, s, 'reads once', f['file'], p)
        if len(inn) + len(raw) != 1 or not act:
            continue
        e = (inn + raw)[0]
        cx.ob(tuple(e.args) == tuple(P(f, i) for i in range(3)), s, 'into the given buffer', e.where(), p)
        cx.ob(F.entails(ne(act[0], ZERO)) if inn else F.entails(eq(act[0], ZERO)), s, 'through TLS if it is on', e.where(), p)
        n['tls' if inn else 'raw'] += 1
        if raw:
            cx.ob(p.val == raw[0].ret, s, 'hands on what came', e.where(), p)
        else:
            al = Engine.project(e.ret, 'qclient::RecvStatus::connectionAlive')
            by = Engine.project(e.ret, 'qclient::RecvStatus::bytesRead')
            cx.ob(F.entails(eq(al, ZERO)) and F.entails(lt(p.val, ZERO)) or F.entails(ne(al, ZERO)) and p.val == by, s, 'a dead connection is an error', e.where(), p)
    cx.ob(all(n.values()), s, 'TLS and clear are told apart', f['file'])
    f = cx.fn(LK + 'asioSend')
    s = f['name']
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        w = p.calls('~^asio::(write|async_write|write_some)$', )
        cx.ob(len(w) == 1 and w[0].name == 'asio::write', s, 'writes all of it', f['file'], p)
        if len(w) != 1:
            continue
        b = [e for e in p.calls('asio::buffer')]
        cx.ob(len(b) == 1 and tuple(b[0].args[:2]) == (P(f, 0), P(f, 1)) and w[0].args[1] == b[0].ret, s, 'the given bytes', f['file'], p)
        cx.ob(p.val == w[0].ret or p.facts.entails(lt(p.val, ZERO)), s, 'reports what was written, or an error', f['file'], p)
        errs = [t for t in lits_of(p.facts) if any(x[:1] == ('out',) and x[2] == 'asio::write' for x in subterms(t))]
        cx.ob(bool(errs) and (p.val == w[0].ret) == p.facts.entails(eq(errs[0], ZERO)), s, 'an error is not taken for success', f['file'], p)
    for fn, call, k in ((LK + 'fdSend', 'send', 2), (LK + 'fdRecv', 'recv', 2)):
        f = cx.fn(fn)
        s = f['name']
        for p in cx.paths(f):
            if p.outcome != 'return':
                continue
            c = [e for e in p.calls(call) if e.args]
            cx.ob(len(c) == 1 and c[0].args[0] == this(LK + 'fd') and tuple(c[0].args[1:3]) == (P(f, 0), P(f, 1)), s, 'on its descriptor, the given bytes', f['file'], p)
            if len(c) == 1:
                cx.ob(p.val == c[0].ret or p.facts.entails(eq(c[0].ret, C(-1))) and p.val == ZERO and call == 'recv', s, 'reports what happened', f['file'], p)


@rule('C13', 'again', 'a connection without data is waited for, a broken one is not')
def c13_again(cx):
    AGAIN = C(11)
    f = cx.fn(LK + 'asioRecv')
    s = f['name']
    n = {'data': 0, 'none': 0, 'error': 0}
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        F = p.facts
        r = p.calls('~::(receive|read_some)$')
        cx.ob(len(r) == 1, s, 'reads once', f['file'], p)
        if len(r) != 1:
            continue
        e = r[0]
        cx.ob(e.args[0] == ('ctor', 'asio::mutable_buffer', (P(f, 0), P(f, 1))) or any(x.ret == e.args[0] and tuple(x.args[:2]) == (P(f, 0), P(f, 1)) for x in p.calls('asio::buffer')), s, 'into the given buffer', e.where(), p)
        errs = [t for t in lits_of(F) if any(x[:1] == ('out',) and x[1] == e.n for x in subterms(t))]
        if p.val == e.ret:
            n['data'] += 1
            cx.ob(errs and F.entails(eq(errs[0], ZERO)), s, 'data if there was no error', e.where(), p)
        elif F.entails(eq(p.val, ZERO)):
            n['none'] += 1
            cx.ob(errs and F.entails(eq(errs[0], AGAIN)), s, 'no data if it is not there yet', e.where(), p)
        else:
            n['error'] += 1
            cx.ob(errs and F.entails(ne(errs[0], ZERO)) and F.entails(ne(errs[0], AGAIN)) and (p.val == sub(ZERO, errs[0]) or F.entails(lt(p.val, ZERO))), s, 'any other error ends the connection', e.where(), p)
    cx.ob(all(n.values()), s, 'data, none yet and errors are told apart', f['file'])
    f = cx.fn(LK + 'fdRecv')
    s = f['name']
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        F = p.facts
        r = [e for e in p.calls('recv') if e.args]
        if len(r) != 1:
            continue
        errno = [t for t in lits_of(F) if '__errno_location' in repr(t)]
        if p.val == r[0].ret:
            cx.ob(F.entails(ne(r[0].ret, C(-1))) or errno and all(F.entails(ne(t, AGAIN)) for t in errno), s, 'no data yet is no error', f['file'], p)
        else:
            cx.ob(F.entails(eq(r[0].ret, C(-1))) and any(F.entails(eq(t, AGAIN)) for t in errno), s, 'no data only if it is not there yet', f['file'], p)
    want = {'basic_stream_socket': ('asioSocket', 'socket'), 'XrdLink': ('link', 'lp'), 'int': ('fd', 'fd_')}
    n = 0
    for g in cx.p.fns(LK + 'Link'):
        if not g['params'] or not g.get('body'):
            continue
        t = g['params'][0]['t']
        fld = 'asioSocket' if 'socket' in t else 'link' if 'XrdLink' in t else 'fd' if t == 'int' else None
        if fld is None:
            continue
        n += 1
        for p in cx.paths(g, opaque=('~generateUuid$', '~TlsFilter', '~Link::describe$', '~XrdLink::')):
            v = p.final(thisloc(LK + fld))
            w = (P(g, 0), ('addr', ('var', g['params'][0]['id'], 0)), ('addr', ('d', P(g, 0))))
            cx.ob(v in w or v is not None and v[:1] == ('addr',), g['name'], 'uses the transport it was given', g['file'], p)
    cx.ob(n >= 3, LK + 'Link', 'each transport has its link')


@rule('C13', 'buffer', 'buffered bytes are sent once and in order')
def c13_buffer(cx):
    mtx, act, cnt, buf, link = (BW + x for x in ('mtx', 'active', 'bufferedBytes', 'buffer', 'link'))
    SND = LK + 'Send'
    opq = ('~Link::Send$', BW + 'flush')
    lim = None
    for r in cx.p.rec.get(Q + 'BufferedWriter', {}).get('fields', ()):
        if r['n'] == 'buffer' or r['n'].endswith('::buffer'):
            m = re.search(r'\[(\d+)\]', r['t'])
            lim = int(m.group(1)) if m else None
    cx.need(lim, 'the size of the output buffer')
    f = cx.fn(BW + 'flush')
    s = f['name']
    n = 0
    for p in cx.paths(f, opaque=('~Link::Send$',)):
        if p.outcome != 'return':
            continue
        snd = p.calls(SND)
        b = this(cnt)
        if not snd:
            cx.ob(p.facts.entails(eq(b, ZERO)) or p.facts.entails(le(b, ZERO)) or p.facts.entails(eq(this(link), ZERO)), s, 'keeps nothing back', f['file'], p)
            continue
        n += 1
        cx.ob(len(snd) == 1 and len(snd[0].args) == 2 and bufpos(snd[0].args[0], buf) == ZERO and p.facts.entails(eq(snd[0].args[1], b)), s, 'sends what is buffered, once', snd[0].where(), p)
        cx.ob(p.final(thisloc(cnt)) == ZERO, s, 'and forgets it', f['file'], p)
        cx.ob(all(held(e, mtx) for e in snd), s, 'one sender at a time', f['file'], p)
    cx.ob(n, s, 'sends', f['file'])
    f = cx.fn(BW + 'send')
    s = f['name']
    kinds = set()
    for p in cx.paths(f, opaque=opq):
        if p.outcome != 'return':
            continue
        F = p.facts
        raw = P(f, 0)
        snd = p.calls(SND)
        fl = p.calls(BW + 'flush')
        cp = [e for e in p.calls('~^(std::)?(memcpy|memmove|copy|copy_n)$') if e.args]
        if F.entails(eq(this(link), ZERO)):
            continue
        cx.ob(len(snd) + len(cp) == 1 or not snd and not cp and F.entails(eq(size(raw), ZERO)), s, 'sent or buffered, once', f['file'], p)
        for e in snd:
            cx.ob(held(e, mtx), s, 'one sender at a time', e.where(), p)
            cx.ob(e.args[0] == raw and (len(e.args) == 1 or F.entails(eq(e.args[1], size(raw)))), s, 'all of it', e.where(), p)
            cx.ob(p.val == e.ret, s, 'the outcome is handed on', e.where(), p)
            off = F.entails(eq(this(act), ZERO))
            kinds.add('off' if off else 'large')
            cx.ob(off or any(before(p, x, e) for x in fl) or F.entails(eq(this(cnt), ZERO)), s, 'after what is buffered', e.where(), p)
        for e in cp:
            kinds.add('copy')
            cx.ob(held(e, mtx), s, 'one sender at a time', e.where(), p)
            F2 = e.facts
            pos = bufpos(e.args[0], buf)
            cx.ob(F.entails(ne(this(act), ZERO)), s, 'only with buffering on', e.where(), p)
            cx.ob(pos is not None, s, 'into the buffer', e.where(), p)
            if pos is None:
                continue
            now = p.final(thisloc(cnt))
            k = e.args[2] if len(e.args) > 2 else None
            cx.ob(e.args[1] in (raw, ('cstr', raw), ('call', 'data', raw)) and k is not None and F2.entails(eq(k, size(raw))), s, 'all of it', e.where(), p)
            cur = now and sub(now, size(raw))
            cx.ob(now is not None and F.entails(eq(cur, pos)), s, 'behind what is there, and counted', e.where(), p)
            if fl:
                fits = F.entails(le(size(raw), C(lim)))
            else:
                fits = F.entails(le(add(size(raw), pos), C(lim)))
            cx.ob(fits, s, 'it fits', e.where(), p)
            w = [x for x in p.events if x.kind == 'call' and x in fl]
            cx.ob(all(before(p, x, e) for x in w), s, 'emptied before, not after', e.where(), p)
    cx.ob(kinds >= {'off', 'large', 'copy'}, s, 'unbuffered, large and small', f['file'])
    f = cx.fn(BW + 'setActive')
    s = f['name']
    for p in cx.paths(f, opaque=opq):
        for e in p.writes(act):
            fl = p.calls(BW + 'flush')
            cx.ob(any(before(p, x, e) for x in fl), s, 'emptied before buffering is switched', e.where(), p)
            cx.ob(held(e, mtx) and all(held(x, mtx) for x in fl), s, 'in one step', e.where(), p)
        cx.ob(p.final(thisloc(act)) == P(f, 0), s, 'buffering is as asked for', f['file'], p)
    for fld, who in ((act, ('setActive', 'BufferedWriter')), (cnt, ('send', 'flush', 'BufferedWriter'))):
        for g, c in [(x[0], x) if isinstance(x, tuple) else (x, x) for x in writers(cx, fld)]:
            cx.ob(short(g['name']).split('::')[-1] in who or g.get('cls') == Q + 'BufferedWriter' and g.get('acc') == 'private', g['name'], 'no one else changes ' + fld.split('::')[-1], g['file'])


def bufpos(v, buf):
    """the position in the buffer v points to"""
    loc = thisloc(buf)
    base = [('init', loc), ('addr', loc), loc]
    if v in base:
        return ZERO
    if v[:1] == ('addr',) and v[1][:1] == ('ix',) and v[1][1] == loc:
        return v[1][2]
    if v[:1] == ('lin',):
        b = [t for t, k in v[2] if t in base and k == 1]
        if b:
            return sub(v, b[0])
    if v[:2] in (('op', '+'), ('call', '+')):
        a, b = v[2], v[3]
        if a in base:
            return b
        if b in base:
            return a
    return None


# ------------------------------------------------------------------ C14
ONQ = ('~BufferedWriter::', '~RedisDispatcher::dispatch$', '~FlushGuard::', '~Transaction::', '~Formatter::')
PEND = PQ + 'pending'
RAW = (PR + 'rawResp', Q + 'RedisEncodedResponse::val')


def front(v, fields):
    """v is the given member of the first entry of the queue"""
    fs = list(fields)
    if v[:1] in (('init',), ('hav',)):
        loc = v[-1]
        while fs and loc[:1] == ('f',) and loc[2] == fs[-1]:
            loc = loc[1]
            fs.pop()
        return not fs and loc[:1] == ('ix',) and loc[1] == thisloc(PEND) and loc[2] == ZERO
    while fs and v[:1] == ('.',) and v[2] == fs[-1]:
        v = v[1]
        fs.pop()
    if fs:
        return False
    return v[:2] == ('call', '[]') and v[3] == ZERO and (v[2][-1] == thisloc(PEND) or v[2][:1] == ('struct',) and v[2][1][-1] == thisloc(PEND))


def the_queue(v):
    while v[:1] in (('struct',), ('mut',)):
        v = v[1] if v[0] == 'struct' else v[2]
    return v[:1] in (('init',), ('hav',)) and v[-1] == thisloc(PEND)


def qturns(p):
    """[(loop, [events of the turn], facts at its end or None)]"""
    out = []
    lids = []
    for e in p.events:
        if e.kind == 'loop' and e.info == 'begin' and e.val[1] not in lids:
            lids.append(e.val[1])
    for lid in lids:
        i = [k for k, e in enumerate(p.events) if e.kind == 'loop' and e.val[1] == lid and e.info == 'begin'][0]
        j = [k for k, e in enumerate(p.events) if e.kind == 'loop' and e.val[1] == lid and e.info == 'iterend']
        ev = p.events[i + 1:j[0]] if j else p.events[i + 1:]
        out.append((lid, ev, p.events[j[0]].facts if j else None))
    return out


def raw_given(F):
    """whether the first entry holds a ready reply: True, False or None"""
    for t in lits_of(F):
        if is_call(t, 'size') and front(t[2], RAW):
            if F.entails(ne(t, ZERO)):
                return True
            if F.entails(eq(t, ZERO)):
                return False
    return None


def turn(cx, s, p, ev, ef, other):
    conn = this(PQ + 'conn')
    snd = [e for e in ev if e.kind == 'call' and e.name == BW + 'send']
    pops = [e for e in ev if e.kind == 'call' and e.name and e.name.split('::')[-1] in ('pop', 'pop_front')]
    cx.ob(len(pops) == 1, s, 'each entry is taken off once', ev[0].where() if ev else None, p)
    cx.ob(all(p.index(x) < p.index(y) for x in snd for y in pops), s, 'after it was answered', None, p)
    if ef.entails(ne(conn, ZERO)):
        cx.ob(len(snd) == 1, s, 'each entry is answered once', None, p)
    else:
        cx.ob(ef.entails(eq(conn, ZERO)) and not snd, s, 'nothing is sent to a connection which is gone', None, p)
    r = raw_given(ef)
    for e in snd:
        a = e.args[0]
        cx.ob(r is True and front(a, RAW) or r is False and other(a, ev, ef), s, 'with its own reply', e.where(), p)
    return r


@rule('C14', 'order', 'replies leave in the order of their requests')
def c14_order(cx):
    conn, pend, last = (this(PQ + x) for x in ('conn', 'pending', 'lastIndex'))
    val = Q + 'RedisEncodedResponse::val'
    f = cx.fn(PQ + 'addPendingTransaction')
    s = f['name']
    n = {'now': 0, 'later': 0, 'indexed': 0}
    for p in cx.paths(f, opaque=ONQ):
        if p.outcome != 'return':
            continue
        F = p.facts
        snd = p.calls(BW + 'send')
        dp = p.calls('~RedisDispatcher::dispatch$')
        psh = [e for e in p.calls('~^std::(queue|deque|list|vector)::(push|push_back|emplace|emplace_back|push_front)$') if e.objloc == thisloc(PEND)]
        cx.ob(F.entails(ne(conn, ZERO)), s, 'only while there is a connection', f['file'], p)
        cx.ob(len(snd) == len(dp) and len(snd) + len(psh) == 1, s, 'answered or queued, once', f['file'], p)
        idx = P(f, 2)
        if len(snd) == 1 and len(dp) == 1:
            n['now'] += 1
            cx.ob(F.entails(eq(size(pend), ZERO)), s, 'answered at once only if nothing waits', f['file'], p)
            cx.ob(F.entails(le(idx, ZERO)), s, 'what has a place in the log waits for it', f['file'], p)
            cx.ob(dp[0].args[0] == P(f, 1) and F.entails(le(dp[0].args[1], ZERO)) and snd[0].args[0] == Engine.project(dp[0].ret, val) and p.val == snd[0].ret, s, 'its own reply', f['file'], p)
        elif len(psh) == 1:
            n['later'] += 1
            cx.ob(psh[0].name.split('::')[-1] in ('push', 'push_back', 'emplace', 'emplace_back'), s, 'queued at the end', psh[0].where(), p)
            x = psh[0].args[0] if psh[0].args else None
            cx.ob(x is not None and part(x, PR + 'tx') == P(f, 1) and part(x, PR + 'index') == idx, s, 'with its request and its place in the log', psh[0].where(), p)
            fin = p.final(thisloc(PQ + 'lastIndex'))
            if possible(F, gt(idx, ZERO)):
                n['indexed'] += 1
                cx.ob(not possible(F, gt(idx, ZERO), le(idx, last)), s, 'places in the log increase', f['file'], p)
                cx.ob(fin == idx or not possible(F, gt(idx, ZERO), ne(fin, idx)), s, 'and are remembered', f['file'], p)
            else:
                cx.ob(fin == last, s, 'reads leave the last place alone', f['file'], p)
        for e in snd + psh + dp:
            cx.ob(held(e, PQ + 'mtx'), s, 'under the lock of the queue', e.where(), p)
    cx.ob(all(n.values()), s, 'all cases are there', f['file'])
    f = cx.fn(PQ + 'appendResponseNoLock')
    s = f['name']
    n = [0, 0]
    for p in cx.paths(f, opaque=ONQ):
        if p.outcome != 'return':
            continue
        F = p.facts
        snd = p.calls(BW + 'send')
        psh = [e for e in p.calls('~^std::(queue|deque|list|vector)::(push|push_back|emplace|emplace_back|push_front)$') if e.objloc == thisloc(PEND)]
        cx.ob(F.entails(ne(conn, ZERO)), s, 'only while there is a connection', f['file'], p)
        cx.ob(len(snd) + len(psh) == 1, s, 'sent or queued, once', f['file'], p)
        if snd:
            n[0] += 1
            cx.ob(F.entails(eq(size(pend), ZERO)), s, 'sent at once only if nothing waits', f['file'], p)
            cx.ob(snd[0].args[0] in (Engine.project(P(f, 0), val),) and p.val == snd[0].ret, s, 'what was given', snd[0].where(), p)
        for e in psh:
            n[1] += 1
            cx.ob(e.name.split('::')[-1] in ('push', 'push_back', 'emplace', 'emplace_back') and F.entails(ne(size(pend), ZERO)), s, 'queued at the end', e.where(), p)
            rr = part(e.args[0], PR + 'rawResp')
            cx.ob(rr == P(f, 0) or rr is not None and part(rr, val) == Engine.project(P(f, 0), val), s, 'what was given', e.where(), p)
            ix = part(e.args[0], PR + 'index')
            cx.ob(ix is None or ix[:1] != ('c',) or F.entails(le(ix, ZERO)), s, 'without a place in the log', e.where(), p)
    cx.ob(n[0] and n[1], s, 'both cases are there', f['file'])


@rule('C14', 'drain', 'entries are answered first to last, once, when their turn has come')
def c14_drain(cx):
    conn = this(PQ + 'conn')
    val = Q + 'RedisEncodedResponse::val'
    f = cx.fn(PQ + 'dispatchPending')
    s = f['name']
    ci = P(f, 1)
    idxs = (PR + 'index',)
    n = {'blocked': 0, 'raw': 0, 'run': 0, 'done': 0}
    for p in cx.paths(f, opaque=ONQ):
        ret = p.outcome == 'return'
        for lid, ev, ef in qturns(p):
            if ef is None:
                # the turn left the loop
                if not ret:
                    continue
                n['blocked'] += 1
                cx.ob(front(p.val, idxs) and p.facts.entails(gt(p.val, ci)), s, 'stops at the first entry whose turn has not come', f['file'], p)
                cx.ob(not [e for e in ev if e.kind == 'call' and (e.name == BW + 'send' or e.name.split('::')[-1] in ('pop', 'pop_front') or e.name.endswith('RedisDispatcher::dispatch'))], s, 'and leaves it there', f['file'], p)
                continue
            dps = [e for e in ev if e.kind == 'call' and e.name and e.name.endswith('RedisDispatcher::dispatch')]

            def other(a, ev, ef):
                return len(dps) == 1 and a == Engine.project(dps[0].ret, val)
            r = turn(cx, s, p, ev, ef, other)
            ix = [t for t in lits_of(ef) if front(t, idxs)]
            cx.ob(bool(ix) and any(ef.entails(le(t, ci)) for t in ix), s, 'not before its place in the log is committed', f['file'], p)
            if r is True:
                n['raw'] += 1
                cx.ob(not dps, s, 'a ready reply needs no request', f['file'], p)
            elif r is False:
                n['run'] += 1
                cx.ob(len(dps) == 1 and front(dps[0].args[0], (PR + 'tx',)) and front(dps[0].args[1], idxs), s, 'each request is carried out once, at its place', f['file'], p)
                cx.ob(any(not possible(ef, gt(t, ZERO), ne(t, ci)) for t in ix), s, 'a write is carried out at the place just committed', f['file'], p)
        if ret and not any(ef is None for _, _, ef in qturns(p)):
            n['done'] += 1
            ex = [e for e in p.events if e.kind == 'loop' and e.info in ('exit', 'zero')]
            cx.ob(p.facts.entails(lt(p.val, ZERO)) and ex and not [e for e in p.events if e.kind == 'loop' and e.info == 'break'], s, 'nothing is left behind', f['file'], p)
            emp = [t for t in lits_of(p.facts) if is_call(t, 'size') and the_queue(t[2])]
            cx.ob(any(p.facts.entails(eq(t, ZERO)) for t in emp), s, 'ends when the queue is empty', f['file'], p)
        for e in p.events:
            if e.kind == 'call' and e.name in (BW + 'send',):
                cx.ob(held(e, PQ + 'mtx'), s, 'under the lock of the queue', e.where(), p)
        if ret:
            cx.ob(p.calls('~FlushGuard::FlushGuard$') or p.calls('~::flush$') or p.facts.entails(eq(conn, ZERO)), s, 'replies do not stay in the buffer', f['file'], p)
    cx.ob(all(n.values()), s, 'all cases are there', f['file'])
    f = cx.fn(PQ + 'flushPending')
    s = f['name']
    n = {'raw': 0, 'err': 0}
    for p in cx.paths(f, opaque=ONQ):
        if p.outcome != 'return':
            continue
        for lid, ev, ef in qturns(p):
            if ef is None:
                cx.ob(False, s, 'gives up on no entry', f['file'], p)
                continue
            ml = [e for e in ev if e.kind == 'call' and e.name and e.name.endswith('Formatter::multiply')]
            er = [e for e in ev if e.kind == 'call' and e.name and e.name.endswith('Transaction::expectedResponses')]

            def other(a, ev, ef):
                return len(ml) == 1 and a == Engine.project(ml[0].ret, val) and ml[0].args[0] == P(f, 0) and any(ml[0].args[1] == e.ret and e.obj is not None and front(e.obj, (PR + 'tx',)) for e in er)
            r = turn(cx, s, p, ev, ef, other)
            if r is not None:
                n['raw' if r else 'err'] += 1
        emp = [t for t in lits_of(p.facts) if is_call(t, 'size') and the_queue(t[2])]
        cx.ob(any(p.facts.entails(eq(t, ZERO)) for t in emp), s, 'ends when the queue is empty', f['file'], p)
        fin = p.final(thisloc(PQ + 'lastIndex'))
        cx.ob(fin is not None and p.facts.entails(lt(fin, ZERO)), s, 'positions start anew', f['file'], p)
        cx.ob(p.calls(BW + 'flush') or p.calls('~FlushGuard::FlushGuard$') or p.calls('~Connection::flush$') or p.facts.entails(eq(conn, ZERO)), s, 'replies do not stay in the buffer', f['file'], p)
    cx.ob(all(n.values()), s, 'both kinds of entries', f['file'])


@rule('C14', 'only-way', 'a connection is written to by its queue only, until it is gone')
def c14_only_way(cx):
    n = 0
    for g, c in callers(cx, BW + 'send'):
        n += 1
        cx.ob(g.get('cls') == Q + 'PendingQueue', g['name'], 'replies go through the queue', g['file'])
    cx.need(n, 'BufferedWriter::send is not called')
    for g in [x[0] if isinstance(x, tuple) else x for x in writers(cx, PQ + 'conn')]:
        cx.ob(g['name'] in (PQ + 'detachConnection', PQ + 'PendingQueue'), g['name'], 'no one else changes the connection of a queue', g['file'])
    for g in [x[0] if isinstance(x, tuple) else x for x in writers(cx, PQ + 'lastIndex')]:
        cx.ob(g['name'] in (PQ + 'flushPending', PQ + 'addPendingTransaction', PQ + 'PendingQueue'), g['name'], 'no one else changes the last position', g['file'])
    f = cx.fn(PQ + 'detachConnection')
    for p in cx.paths(f):
        w = p.writes(PQ + 'conn')
        cx.ob(p.facts.entails(eq(p.final(thisloc(PQ + 'conn')), ZERO)) and w and all(held(e, PQ + 'mtx') for e in w), f['name'], 'the queue forgets its connection', f['file'], p)
    d = [g for g in cx.p.methods(Q + 'Connection') if '<dtor>' in g['key']]
    cx.need(d, 'the destructor of a connection')
    for g in d:
        for p in cx.paths(g, opaque=('~PendingQueue::',)):
            cx.ob(len(p.calls(PQ + 'detachConnection')) >= 1, g['name'], 'a connection tells its queue', g['file'], p)
    seen = 0
    for g, c in callers(cx, PQ + 'appendResponse'):
        if g.get('cls') != Q + 'Connection':
            continue
        seen += 1
        m = short(g['name']).split('::')[-1]
        for p in cx.paths(g, opaque=('~PendingQueue::', '~Formatter::')):
            if p.outcome != 'return':
                continue
            ap = p.calls(PQ + 'appendResponse')
            cx.ob(len(ap) == 1 and p.val == ap[0].ret, g['name'], 'answers once', g['file'], p)
            if len(ap) != 1:
                continue
            a = ap[0].args[0]
            fm = [e for e in p.calls('~quarkdb::Formatter::') if e.ret == a]
            k = len(g['params'])
            cx.ob(a == P(g, 0) if m == 'raw' else len(fm) == 1 and fm[0].name.split('::')[-1] == m and tuple(fm[0].args[:k]) == tuple(P(g, i) for i in range(k)),
                  g['name'], 'with what it was asked to say', g['file'], p)
    cx.ob(seen >= 10, 'Connection', 'its replies go through the queue')
    for m, q in (('addPendingTransaction', 3), ('flushPending', 1), ('dispatchPending', 2)):
        f = cx.fn(CN + m)
        for p in cx.paths(f, opaque=('~PendingQueue::',)):
            c = p.calls(PQ + m)
            cx.ob(len(c) == 1 and p.val == c[0].ret and tuple(c[0].args) == tuple(P(f, i) for i in range(q)), f['name'], 'asks its queue', f['file'], p)
