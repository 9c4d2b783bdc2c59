"""U05: buffers own what they hand out"""
import re
from qdb.common import *
from qdb.rule import rule

Q = 'quarkdb::'
SB = Q + 'SmartBuffer::'
ST = Q + 'StaticBuffer::'
MR = Q + 'MemoryRegion::'
PB = Q + 'PinnedBuffer::'
CL = Q + 'CoreLocalArray::'


def nil(v):
    return is_zero(v) or v == ('null',) or v[:1] == ('gv',) and v[1] == 'std::nullopt'


def members(cx, cls):
    """all members of the instances of a class template: (function, template argument)"""
    out = []
    for k, f in sorted(cx.p.fn.items()):
        m = re.match(re.escape(Q + cls) + r'(?:<(.+?)>)?::[^:]+$', k.split('(')[0])
        if m:
            out.append((f, m.group(1)))
    cx.need(out, Q + cls)
    return out


def role(f):
    return '<dtor>' if '<dtor>' in f['key'] else '<ctor>' if '<ctor>' in f['key'] else f['name'].split('::')[-1]


def mentions(v, t):
    return any(x == t for x in subterms(v))


def allocs(p):
    return [e for e in p.calls('malloc')]


@rule('U05', 'smart', 'a buffer always has room for its size, and its heap block is freed exactly once')
def u05_smart(cx):
    n = 0
    for f, t in members(cx, 'SmartBuffer'):
        if f.get('acc') == 'private':
            continue
        S, what, s = C(int(t)), role(f), Q + 'SmartBuffer::' + role(f)
        buf, rs0, hp0, hs0 = (this(SB + x) for x in ('staticBuffer', 'realSize', 'heapBuffer', 'heapBufferSize'))
        for p in cx.paths(f):
            cases = [[eq(hp0, ZERO), le(rs0, S)], [ne(hp0, ZERO), le(rs0, hs0)]] if what != '<ctor>' else [[]]
            for case in cases:
                for F in p.facts.with_(AND(*case)) if case else [p.facts]:
                    if any(F.entails(eq(e.ret, ZERO)) for e in allocs(p)):
                        continue
                    if p.outcome == 'throw':
                        cx.ob(not any(e.kind == 'write' for e in p.events) and not p.calls('free'), s, 'a refused request changes nothing', None, p)
                        if what in ('shrink', 'expand'):
                            cx.ob(not F.entails(le(P(f, 0), rs0) if what == 'shrink' else le(rs0, P(f, 0))) and not possible(F, eq(P(f, 0), rs0)), s, 'serves every sensible request', None, p)
                        continue
                    n += 1
                    heap = bool(case) and F.entails(ne(hp0, ZERO))
                    hp, rs, hs = (p.final(thisloc(SB + x)) for x in ('heapBuffer', 'realSize', 'heapBufferSize'))
                    room = {buf: S}
                    if heap:
                        room[hp0] = hs0
                    for e in allocs(p):
                        room[e.ret] = e.args[0]
                    freed = []
                    for e in p.events:
                        if e.kind == 'call' and match(e.name, ['free', 'std::free']):
                            if e.args[0] == ZERO or F.entails(eq(e.args[0], ZERO)):
                                continue
                            cx.ob(e.args[0] in room and e.args[0] != buf and e.args[0] not in freed, s, 'frees only a block it owns, once', e.where(), p)
                            freed.append(e.args[0])
                            continue
                        if e.kind == 'call' and freed:
                            cx.ob(not any(mentions(a, x) for a in e.args for x in freed), s, 'does not use a freed block', e.where(), p)
                        if e.kind == 'call' and match(e.name, ['memcpy', 'memmove', 'std::memcpy', 'std::memmove']):
                            for a in e.args[:2]:
                                cx.ob(a in room and F.entails(le(e.args[2], room[a])), s, 'copies inside the blocks', e.where(), p)
                    for b in room:
                        if b == buf:
                            continue
                        kept = what != '<dtor>' and F.entails(eq(hp, b))
                        cx.ob((b in freed) + kept == 1, s, 'a heap block is kept or freed, never both or neither', None, p)
                    if what == '<dtor>':
                        continue
                    if hp == ZERO or F.entails(eq(hp, ZERO)):
                        cx.ob(F.entails(le(rs, S)), s, 'the inline block holds the size', None, p)
                        now = buf
                    else:
                        now = hp
                        cx.ob(hp in room and F.entails(le(rs, hs)) and F.entails(le(hs, room[hp])), s, 'the heap block holds the size', None, p)
                    if what in ('resize', 'expand', 'shrink') or what == '<ctor>' and f['params']:
                        cx.ob(F.entails(eq(rs, P(f, 0))), s, 'has the size asked for', None, p)
                    elif what != '<ctor>':
                        cx.ob(F.entails(eq(rs, rs0)) and hp == hp0, s, 'leaves the buffer alone', None, p)
                    if what in ('expand', 'shrink'):
                        old = hp0 if heap else buf
                        cx.ob(now == old or any(e.args[0] == now and e.args[1] == old and F.entails(le(rs0, e.args[2])) for e in p.calls('~memcpy$|memmove$')),
                              s, 'keeps the contents', None, p)
                    if what in ('data', 'toView', 'toString', 'operator[]'):
                        v = p.val
                        cx.ob(mentions(v, now) and not mentions(v, buf if now == hp else hp0), s, 'gives the block in use', None, p)
                        if what in ('toView', 'toString'):
                            cx.ob(mentions(v, rs0), s, 'gives all of it', None, p)
                    if what == 'size':
                        cx.ob(p.val == rs0, s, 'tells its size', None, p)
    cx.ob(n >= 20, SB, 'buffers are used')


def owners(cx):
    """records holding a SmartBuffer, a MemoryRegion or a per-core array by value"""
    own = set()
    for t, r in cx.p.rec.items():
        if re.match(r'quarkdb::(SmartBuffer|MemoryRegion|CoreLocalArray)(<|$)', t):
            own.add(t)
    n = -1
    while n != len(own):
        n = len(own)
        for t, r in cx.p.rec.items():
            if any(f['t'] in own or re.sub(r'\[\d+\]$', '', f['t']) in own for f in r['fields']) or any((b if isinstance(b, str) else b.get('t')) in own for b in r['bases']):
                own.add(t)
    return own


@rule('U05', 'nocopy', 'an object which owns a block is never copied member by member')
def u05_nocopy(cx):
    own = owners(cx)
    cx.need(any('SmartBuffer' in x for x in own), 'owners')
    n = 0
    rx = re.compile('(?<![\\w:])(%s)(?![\\w:])' % '|'.join(re.escape(x) for x in sorted(own, key=len, reverse=True)))
    for k, f in sorted(cx.p.fn.items()):
        for x in walk(f['body']):
            if x.get('k') == 'copy' and x.get('c') in own:
                cx.ob(bool(x.get('up')), f['name'], 'does not copy ' + x['c'], '%s:%s' % (f['file'], x['l']))
            elif x.get('k') == 'call' and x.get('op') == '=' and isinstance(x.get('o'), dict) and x['o'].get('t', '').replace('const ', '') in own:
                cx.ob(x.get('key') in cx.p.fn, f['name'], 'does not assign ' + x['o']['t'], '%s:%s' % (f['file'], x['l']))
            elif x.get('k') == 'decl':
                for d in x.get('d', ()):
                    t = d.get('t', '')
                    if rx.search(t):
                        n += 1
                        bare = re.sub(r'^const ', '', t).rstrip('&* ')
                        cx.ob(bare in own or re.match(r'(std::(unique|shared|weak)_ptr|quarkdb::)', bare), f['name'], 'is not kept in a container that moves it', '%s:%s' % (f['file'], x['l']))
    for t, r in sorted(cx.p.rec.items()):
        for fd in r['fields']:
            if rx.search(fd['t']):
                n += 1
                bare = re.sub(r'^const ', '', fd['t']).rstrip('&* ')
                cx.ob(re.sub(r'\[\d+\]$', '', bare) in own or 'unique_ptr<' in bare or 'shared_ptr<' in bare or '*' in bare or bare.startswith('quarkdb::') or re.match(r'std::(map|list|set|multimap|unordered_map)<', bare), t,
                      'member %s is not kept in a container that moves it' % fd['n'], '%s:%s' % (r['file'], fd['l']))
    cx.ob(n >= 5, Q, 'owners are used')


@rule('U05', 'static', 'a fixed buffer never claims more than it has')
def u05_static(cx):
    n = 0
    for f, t in members(cx, 'StaticBuffer'):
        what, s = role(f), ST + role(f)
        rs, loc, arr = this(ST + 'runtime_size'), thisloc(ST + 'runtime_size'), this(ST + 'contents')
        for p in cx.paths(f):
            if p.outcome == 'throw':
                cx.ob(what != 'shrink' or p.facts.entails(gt(P(f, 0), C(int(t)))), s, 'serves every size that fits', None, p)
                continue
            for F in p.facts.with_(le(rs, C(int(t)))):
                n += 1
                v = p.final(loc)
                cx.ob(F.entails(le(v, C(int(t)))), s, 'its size stays within its storage', None, p)
                if what == 'shrink':
                    cx.ob(v == P(f, 0), s, 'has the size asked for', None, p)
                elif what != '<ctor>':
                    cx.ob(v == rs, s, 'leaves the size alone', None, p)
                if what in ('data', 'toView', 'operator[]'):
                    cx.ob(mentions(p.val, arr) or mentions(p.val, thisloc(ST + 'contents')), s, 'gives its own storage', None, p)
                if what in ('toView', 'size'):
                    cx.ob(mentions(p.val, rs), s, 'gives its size', None, p)
    cx.ob(n >= 8, ST, 'fixed buffers are used')


@rule('U05', 'pool', 'an allocation lies inside its pool, after all earlier ones, and keeps the pool alive')
def u05_pool(cx):
    reg, al = this(MR + 'region'), this(MR + 'allocated')
    regl, all_ = thisloc(MR + 'region'), thisloc(MR + 'allocated')
    f = cx.fn(MR + 'allocate')
    b = P(f, 0)
    given = 0
    for p in returns(cx.paths(f)):
        for F in p.facts.with_(AND(le(al, size(reg)), le(ZERO, al))):
            v = p.val
            if nil(v):
                cx.ob(F.entails(lt(size(reg), add(al, b))), f['name'], 'refuses only what does not fit', None, p)
                cx.ob(p.final(all_) == al, f['name'], 'a refusal takes nothing', None, p)
                continue
            given += 1
            g = lambda x: Engine.project(v, PB + x)
            cx.ob(F.entails(le(add(al, b), size(reg))), f['name'], 'fits in the pool', None, p)
            cx.ob(F.eqv(g('regionPtr'), add(('call', 'std::vector::data', reg), al)), f['name'], 'starts after all earlier ones', None, p)
            cx.ob(g('regionSize') == b, f['name'], 'has the size asked for', None, p)
            cx.ob('shared_from_this' in repr(g('region')), f['name'], 'keeps the pool alive', None, p)
            w = [e for e in p.events if e.kind == 'write' and e.loc == all_]
            cx.ob(len(w) == 1 and F.eqv(w[0].val, add(al, b)), f['name'], 'is accounted', None, p)
    cx.ob(given >= 1, f['name'], 'allocates')
    # size_t arithmetic: the request must not be added to anything before it is known to fit
    par = {q['id'] for q in f['params']}
    deciding = set()
    for _ in range(3):
        for x in walk(f['body']):
            conds = [x.get('c')] if x.get('k') in ('if', 'while', 'cond', 'for') else []
            if x.get('k') == 'decl':
                conds += [d.get('e') for d in x.get('d', ()) if d.get('id') in deciding]
            for c in conds:
                for y in walk(c):
                    if y.get('k') == 'ref':
                        deciding.add(y.get('id'))
                    if y.get('k') == 'bin' and y.get('op') in ('+', '*'):
                        cx.ob(not any(z.get('k') == 'ref' and z.get('id') in par for z in walk(y)), f['name'], 'a huge request cannot wrap around', '%s:%s' % (f['file'], y['l']))
    ctor = cx.fn(MR + 'MemoryRegion', 1)
    for p in cx.paths(ctor):
        cx.ob(p.facts.eqv(size(p.final(regl)), P(ctor, 0)) or any(op_(e) == 'resize' and e.objloc == regl and e.args[:1] == (P(ctor, 0),) for e in p.events if e.kind == 'call'),
              ctor['name'], 'has the size asked for', None, p)
        cx.ob(is_zero(p.final(all_)), ctor['name'], 'starts empty', None, p)
    cf = cx.fn(MR + 'Construct')
    for p in returns(cx.paths(cf, opaque=('~MemoryRegion::MemoryRegion',))):
        cx.ob(any(e.args == (P(cf, 0),) for e in p.events if e.kind == 'new' or e.kind == 'call' and match(e.name, ['~make_shared|MemoryRegion::MemoryRegion'])), cf['name'], 'has the size asked for', None, p)
    for fld, may in (('region', (MR + 'MemoryRegion',)), ('allocated', (MR + 'MemoryRegion', MR + 'allocate', MR + 'resetAllocations'))):
        for w in writers(cx, MR + fld):
            cx.ob(w['name'] in may, w['name'], 'only the pool moves its %s' % fld, w['file'])
    for c, _ in callers(cx, MR + 'resetAllocations'):
        cx.ob(False, c['name'], 'does not restart a pool which may be in use', c['file'])
    for what in ('data', 'size', 'bytesConsumed', 'bytesFree'):
        for g in cx.p.fns(MR + what):
            for p in returns(cx.paths(g)):
                want = {'data': ('call', 'std::vector::data', reg), 'size': size(reg), 'bytesConsumed': al, 'bytesFree': sub(size(reg), al)}[what]
                cx.ob(p.facts.eqv(p.val, want), g['name'], 'describes the pool', None, p)


def op_(e):
    return e.name.split('::')[-1]


@rule('U05', 'pinned', 'a pinned buffer describes the block it keeps alive')
def u05_pinned(cx):
    reg, ptr, sz, own = (this(PB + x) for x in ('region', 'regionPtr', 'regionSize', 'internalBuffer'))
    L = [thisloc(PB + x) for x in ('region', 'regionPtr', 'regionSize', 'internalBuffer')]
    n = 0
    for f in cx.p.methods(Q + 'PinnedBuffer'):
        what, s = role(f), PB + role(f)
        kinds_ = [q['t'] for q in f['params']]
        for p in returns(cx.paths(f)):
            pooled = p.facts.entails(ne(reg, ZERO))
            local = p.facts.entails(eq(reg, ZERO))
            v = p.val
            if what == '<ctor>':
                n += 1
                fin = [p.final(l) for l in L]
                if len(kinds_) == 3:
                    cx.ob(fin[:3] == [P(f, 0), P(f, 1), P(f, 2)], s, 'keeps owner, place and size', None, p)
                elif len(kinds_) == 1 and 'view' in kinds_[0]:
                    cx.ob(nil(fin[0]) and fin[3] == P(f, 0), s, 'copies the contents', None, p)
                elif len(kinds_) == 1:
                    cx.ob(nil(fin[0]) and (P(f, 0) in fin[3][3:4] or any(P(f, 0) == x for x in subterms(fin[3]))), s, 'makes room', None, p)
                else:
                    cx.ob(nil(fin[0]), s, 'starts empty', None, p)
                continue
            if what in ('size', 'sv', 'operator std::string_view', 'data', 'operator[]', 'remove_suffix', 'substr'):
                n += 1
                if not cx.ob(pooled or local, s, 'knows where its bytes are', None, p):
                    continue
            if what == 'size':
                cx.ob(p.facts.eqv(v, sz if pooled else size(own)), s, 'tells the right size', None, p)
            elif what in ('sv', 'operator std::string_view'):
                cx.ob(v == own if local else v == ('text', ptr, sz) or mentions(v, ptr) and mentions(v, sz), s, 'shows exactly its bytes', None, p)
            elif what == 'data':
                cx.ob(v == (ptr if pooled else ('call', 'data', own)), s, 'points at its bytes', None, p)
            elif what == 'operator[]':
                cx.ob(mentions(v, ptr if pooled else own) and mentions(v, P(f, 0)), s, 'gives its own byte', None, p)
            elif what == 'remove_suffix':
                if pooled:
                    cx.ob(p.facts.eqv(p.final(L[2]), sub(sz, P(f, 0))) and p.final(L[1]) == ptr, s, 'drops that many bytes', None, p)
                else:
                    cx.ob(p.final(L[3]) != own and mentions(p.final(L[3]), P(f, 0)), s, 'drops that many bytes', None, p)
            elif what == 'substr':
                g = lambda x: Engine.project(v, PB + x)
                if pooled:
                    cx.ob(g('region') == reg and p.facts.eqv(g('regionPtr'), add(ptr, P(f, 0))) and g('regionSize') == P(f, 1), s, 'is that part of the same block, which it keeps alive', None, p)
                else:
                    cp = p.calls('~memcpy$|memmove$')
                    if cp:
                        cx.ob(any(p.facts.eqv(e.args[1], add(('call', 'data', own), P(f, 0))) and e.args[2] == P(f, 1) and P(f, 1) in list(subterms(e.args[0])) for e in cp), s, 'copies that part', None, p)
                    else:
                        cx.ob(all(mentions(v, x) for x in (own, P(f, 0), P(f, 1))), s, 'copies that part', None, p)
            elif what == 'operator==':
                n += 1
                for q, r, F in bool_cases([p]):
                    o = P(f, 0)
                    mine = [own] if local else [('text', ptr, sz)]
                    eqs = [l for l in F.all() if l[0] in ('eq', 'ne')]
                    cx.ob(any((l[0] == 'eq') == bool(r) and any(mentions(l, m) or mentions(l, ptr) for m in mine) and (mentions(l, o) or 'other' in repr(l) or 'sv' in repr(l)) for l in eqs), s, 'compares the bytes', None, q)
            elif what == 'empty':
                for q, r, F in bool_cases([p]):
                    m = size(own) if local else sz
                    cx.ob(F.entails(eq(m, ZERO)) if r else F.entails(ne(m, ZERO)), s, 'tells whether there are bytes', None, q)
            elif what == 'usingInternalBuffer':
                for q, r, F in bool_cases([p]):
                    cx.ob(F.entails(eq(reg, ZERO)) if r else F.entails(ne(reg, ZERO)), s, 'tells where its bytes are', None, q)
            elif what not in ('getInternalBuffer',):
                cx.ob(all(p.final(l) == this(last_field(l)) for l in L), s, 'changes nothing', None, p)
    cx.ob(n >= 12, PB, 'views are used')
    # who makes one from a block: the block must belong to the region it keeps
    for f in cx.p.fn.values():
        if f['name'].startswith(PB):
            continue
        for x in walk(f['body']):
            if x.get('k') == 'ctor' and x.get('c') == Q + 'PinnedBuffer' and len(x.get('a', ())) == 3:
                cx.ob(f['name'] in (MR + 'allocate', Q + 'BufferedReader::consume'), f['name'], 'does not make views by hand', '%s:%s' % (f['file'], x['l']))
    f = cx.fn(Q + 'BufferedReader::consume', 2, lambda g: 'PinnedBuffer' in g['key'])
    made = 0
    for p in cx.paths(f):
        v = p.final(('var', f['params'][1]['id'], 0))
        r, d = Engine.project(v, PB + 'region'), Engine.project(v, PB + 'regionPtr')
        if v[:1] == ('struct',) and not nil(r):
            made += 1
            base = [x for x in subterms(d) if x[:1] == ('call',) and x[1] == 'std::vector::data']
            cx.ob(len(base) == 1 and mentions(base[0], r), f['name'], 'the block belongs to the pool it keeps', None, p)
    cx.ob(made >= 1, f['name'], 'hands out views')


@rule('U05', 'percore', 'each thread uses a slot inside the per-core array')
def u05_percore(cx):
    n = 0
    cpus, arr = this(CL + 'cpus'), this(CL + 'array')
    seen = set()
    for f, t in members(cx, 'CoreLocalArray'):
        what, s = role(f), CL + role(f)
        seen.add(what)
        for p in cx.paths(f):
            for F in p.facts.with_(le(C(1), cpus)) if what not in ('<ctor>', '<dtor>') else [p.facts]:
                n += 1
                v = p.val
                if what == 'getCoreIndex':
                    cx.ob(F.entails(le(ZERO, v)) and F.entails(lt(v, cpus)), s, 'the slot lies inside the array', None, p)
                elif what == 'access':
                    i = Engine.project(v, 'std::pair::second')
                    cx.ob(F.entails(le(ZERO, i)) and F.entails(lt(i, cpus)), s, 'the slot lies inside the array', None, p)
                    cx.ob(F.eqv(Engine.project(v, 'std::pair::first'), add(arr, i)), s, 'the slot is the one of that index', None, p)
                elif what == 'accessAtCore':
                    cx.ob(F.eqv(v, add(arr, P(f, 0))), s, 'gives the slot of that index', None, p)
                elif what == 'size':
                    cx.ob(v == cpus, s, 'tells how many slots there are', None, p)
                elif what in ('<ctor>', '<dtor>'):
                    now = p.final(thisloc(CL + 'cpus'))
                    it = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
                    if zero_loops(p):
                        cx.ob(any(p.facts.entails(le(c, ZERO)) for c in (now, cpus)), s, 'visits every slot', None, p)
                    else:
                        cx.ob(any(covers(p, e, cur, ZERO, now) for e in it for _, cur, _ in e.args), s, 'visits every slot', None, p)
                    if what == '<dtor>' and not zero_loops(p) and t != Q + 'Statistics':
                        cx.ob(any(e.kind in ('call', 'delete') and e.loops and '~' in str(e.name) for e in p.events), s, 'destroys every slot', None, p)
                    if what == '<ctor>':
                        if not zero_loops(p):
                            cx.ob(any(e.kind == 'new' and e.loops for e in p.events), s, 'constructs every slot', None, p)
                        al = p.calls('~aligned_alloc$|malloc$')
                        rec = cx.p.size.get(t) if isinstance(cx.p.size, dict) else None
                        for e in al:
                            cx.ob(mentions(e.args[-1], now), s, 'has room for every slot', e.where(), p)
                        cx.ob(len(al) == 1 and p.final(thisloc(CL + 'array')) == al[0].ret, s, 'has room for every slot', None, p)
    for w in writers(cx, CL + 'cpus') + writers(cx, CL + 'array'):
        cx.ob('<ctor>' in w['key'] or '<dtor>' in w['key'], w['name'], 'the array never changes its place or size', w['file'])
    cx.ob(n >= 10 and {'getCoreIndex', 'accessAtCore'} <= seen, CL, 'slots are used')
    for f in {f['key']: f for f, _ in callers(cx, CL + 'accessAtCore')}.values():
        if f['name'].startswith(CL) or f['name'] == Q + 'InFlightTracker::down':
            continue
        for p in cx.paths(f):
            for e in p.calls(CL + 'accessAtCore'):
                i = e.args[0]
                c = [x for x in subterms(('x',) + tuple(l for l in e.facts.all()) + (i,)) if x[:1] == ('init',) and last_field(x[1]) == CL + 'cpus']
                ok = any(e.facts.entails(le(ZERO, i)) and all(G.entails(lt(i, x)) for G in e.facts.with_(le(C(1), x))) for x in set(c)) or i == ZERO
                cx.ob(ok, f['name'], 'the slot lies inside the array', e.where(), p)
