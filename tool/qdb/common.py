"""Shared vocabulary of the rules: storage writes, batches, statuses, loops, locks."""
from .rule import *

DBW = ('rocksdb::DB::Write', 'rocksdb::DB::Put', 'rocksdb::DB::Delete', 'rocksdb::DB::SingleDelete', 'rocksdb::DB::DeleteRange', 'rocksdb::DB::Merge',
       'rocksdb::DB::IngestExternalFile', 'rocksdb::TransactionDB::Write', 'rocksdb::DB::DeleteFile')


def public_methods(cx, cls, skip=()):
    out = []
    for f in cx.p.methods(cls):
        if f.get('acc') != 'public' or f['name'].endswith('<dtor>'):
            continue
        if short(f['name']).split('::')[-1] in skip:
            continue
        out.append(f)
    cx.need(out, 'class %s has no public method' % cls)
    return sorted(out, key=lambda f: f['key'])


def ok(ret):
    """literal: the status value is ok"""
    return ne(('call', 'rocksdb::Status::ok', ret), ZERO)


def isok(facts, ret):
    return ret is not None and facts.entails(ok(ret))


def failed_status(path):
    """some storage status is known to have failed on this path"""
    return any(e.ret is not None and path.facts.entails(tneg(ok(e.ret))) for e in path.events if e.kind == 'call' and e.name.startswith('rocksdb::'))


def db_writes(path):
    return path.calls(*DBW)


def batch_ops(path, w):
    """the operations collected in the batch handed to a DB::Write event"""
    loc = None
    for a in w.args:
        if a[0] == 'addr':
            loc = a[1]
    if loc is None:
        for l in w.arglocs:
            if l is not None:
                loc = l
    ops = []
    for e in path.events:
        if e is w:
            break
        if e.kind == 'call' and e.name.startswith(('rocksdb::WriteBatch::', 'rocksdb::WriteBatchBase::', 'rocksdb::WriteBatchWithIndex::')) and e.objloc == loc:
            if e.name.endswith('::Clear'):
                ops = []
            else:
                ops.append(e)
    return ops


def puts(ops):
    return [o for o in ops if o.name.endswith('::Put')]


def deletes(ops):
    return [o for o in ops if o.name.endswith('::Delete') or o.name.endswith('::DeleteRange') or o.name.endswith('::SingleDelete')]


def put_of(ops, key):
    """value put under a literal key, or None"""
    for o in puts(ops):
        if o.args[0] == ('s', key):
            return o.args[1]
    return None


def int_bin(v):
    return ('call', 'quarkdb::intToBinaryString', v)


def before(path, a, b):
    return a.n < b.n


def held(ev, mutex_field, mode=None):
    for l, m, o in ev.locks:
        if last_field(l) == mutex_field or (l[0] == 'g' and l[1] == mutex_field):
            if mode is None or m == mode or m == 'w':
                return True
    return False


def loop_events(path, lid):
    return [e for e in path.events if e.kind == 'loop' and e.val == ('c', lid)]


def loop_range(path, ev, idx):
    """if idx is the counter of the innermost loop around ev that is stepped by one, the
    half-open interval of values it takes: (lo, hi) checked against facts by the caller:
    returns (entry value, step, [exit facts, exit value], broke)"""
    for lid in reversed(ev.loops):
        evs = loop_events(path, lid)
        beg = [e for e in evs if e.info == 'begin']
        if not beg:
            continue
        for v, entry, cur in beg[0].args:
            off = sub(idx, cur)
            if any(c in subterms(off) for _, _, c in beg[0].args):
                continue
            ends = [e for e in evs if e.info == 'iterend']
            exits = [e for e in evs if e.info == 'exit']
            broke = any(e.info == 'break' for e in evs)
            step = None
            for e in ends:
                for v2, a, b in e.args:
                    if v2 == v:
                        d = sub(b, a)
                        step = d[1] if is_num(d) else None
            ex = None
            for e in exits:
                for v2, _, b in e.args:
                    if v2 == v:
                        ex = (e.facts, add(b, off))
            return add(entry, off), step, ex, broke
    return None


def covers(path, ev, idx, lo, hi):
    """the loop around ev runs idx over exactly every value of [lo, hi)"""
    r = loop_range(path, ev, idx)
    if r is None:
        return False
    entry, step, ex, broke = r
    if broke or ex is None:
        return False
    facts, last = ex
    if step == 1:
        return ev.facts.eqv(entry, lo) and facts.entails(ge(last, hi)) and ev.facts.entails(lt(idx, hi))
    if step == -1:
        return ev.facts.eqv(entry, sub(hi, C(1))) and facts.entails(lt(last, lo)) and ev.facts.entails(ge(idx, lo))
    return False


def returns(paths, val=None):
    out = []
    for p in paths:
        if p.outcome != 'return':
            continue
        if val is None or p.val == val:
            out.append(p)
    return out


def bool_cases(paths):
    """(path, result, facts) for every way a bool function returns"""
    for p in paths:
        if p.outcome == 'return' and p.val is not None:
            for b, f in p.ret_cases():
                yield p, b, f


def field_writes(path, prefix):
    """writes to members of the class whose qualified name is prefix"""
    return [e for e in path.events if e.kind == 'write' and any(x.startswith(prefix + '::') for x in loc_fields(e.loc)[-1:] + loc_fields(e.loc))]


def writers(cx, field):
    """functions whose own body may write the field"""
    out = []
    for k, f in cx.p.fn.items():
        vs, fs = cx.p.direct_mods(f['body'], f)
        if field in fs:
            out.append(f)
    return out


def callers(cx, *names):
    """[(function, call node)] of every resolved call of the named functions, lambda bodies included"""
    out = []
    for k, f in cx.p.fn.items():
        for root in [f['body']] + [i['e'] for i in f.get('inits', ())]:
            for n in walk(root):
                if n.get('k') in ('call', 'ctor') and match(n.get('f', ''), names):
                    out.append((f, n))
                elif n.get('k') == 'fn' and match(n.get('key', '').split('(')[0], names):
                    out.append((f, n))
    return out


def const_str(cx, name):
    g = cx.p.glob.get(name)
    cx.need(g is not None and isinstance(g.get('e'), dict) and g['e'].get('k') == 'str', 'constant ' + name)
    return g['e']['v']


# ---- binary layouts
SWAP = ('__bswap_64', '__builtin_bswap64', 'htobe64', 'be64toh')
INTW = ('quarkdb::intToBinaryString', 'quarkdb::unsignedIntToBinaryString')
INTR = ('quarkdb::binaryStringToInt', 'quarkdb::binaryStringToUnsignedInt')


def by_name(cx, *names):
    fs = [f for f in cx.p.fn.values() if f['name'] in names]
    cx.need(fs, 'functions ' + ', '.join(names))
    return sorted(fs, key=lambda f: f['key'])


def int_codec(cx):
    """the integer encoders and decoders are big-endian, eight bytes wide, and inverse"""
    for f in by_name(cx, *INTW):
        s = short(f['name']) + '/%d' % len(f['params'])
        for p in cx.paths(f, extra_inline=INTW):
            want = None
            if len(f['params']) == 1:
                want = p.val
            else:
                w = [e for e in p.events if e.kind == 'write' and e.loc == ('d', P(f, 1))]
                want = w[-1].val if w else None
            good = want is not None and want[0] == 'bytes' and want[2] == C(8) and is_call(want[1], *SWAP) and want[1][2] == P(f, 0)
            cx.ob(good, s, 'writes the eight bytes of the integer, most significant first', f['file'], p)
    for f in by_name(cx, *INTR):
        s = short(f['name']) + '/%d' % len(f['params'])
        for p in cx.paths(f, extra_inline=INTR):
            v = p.val
            a = P(f, 0)
            good = is_call(v, *SWAP) and v[2] in (('load', a, C(8)), ('load', ('call', 'data', a), C(8)))
            cx.ob(good, s, 'reads eight bytes, most significant first', f['file'], p)


def apps(path, loc=None):
    return [e for e in path.events if e.kind == 'app' and (loc is None or e.loc == loc)]


def loop_var(path, lid, val):
    """(entry value, value at the end of the iteration) of the loop variable whose value in the iteration is val"""
    ent = end = None
    found = False
    for e in loop_events(path, lid):
        if e.info == 'begin':
            for v, a, b in e.args:
                if b == val:
                    ent, found, vid = a, True, v
    if not found:
        return None
    for e in loop_events(path, lid):
        if e.info == 'iterend':
            for v, a, b in e.args:
                if v == vid:
                    end = b
    return ent, end


def enum_strings(cx, fname, enum, want, label):
    """a function from an enumeration to text gives each enumerator its own, given text"""
    f = cx.fn(fname)
    vals = [n for n in cx.p.enumval if n.startswith(enum + '::')]
    cx.need(vals, 'enumeration ' + enum)
    seen = {}
    for p in cx.paths(f):
        if p.outcome != 'return' or p.val is None or p.val[0] != 's':
            continue
        for v in vals:
            if p.facts.entails(eq(P(f, 0), ('e', v))):
                seen.setdefault(v, set()).add(p.val[1])
    for v in vals:
        n = v.split('::')[-1]
        w = want.get(n)
        cx.ob(w is not None and seen.get(v) == {w}, label, '%s is shown as %s' % (n, w), f['file'])


def result(e):
    """value of a call event"""
    return e.ret if e.ret is not None else ('call', e.name) + tuple(e.args)


def outv(e, i):
    """value a call left in its i-th argument"""
    if getattr(e, 'pure', False):
        return ('call', e.name + '#%d' % i) + tuple(e.ret[2:])
    return ('out', e.n, e.name, i, ())


def last_written(p, loc):
    """value of the last write to loc on this path"""
    w = [e.val for e in p.events if e.kind == 'write' and e.loc == loc]
    return w[-1] if w else None


# ---- loops over containers
def peel(v):
    """the element a value was projected from: (element, [fields])"""
    fs = []
    while isinstance(v, tuple) and v:
        if v[0] == '.' and len(v) == 3:
            fs.insert(0, v[2])
            v = v[1]
        elif v[0] == 'init' and v[1][0] == 'f' or v[0] == 'hav' and v[2][0] == 'f':
            loc, acc = v[-1], []
            while loc[0] == 'f':
                acc.insert(0, loc[2])
                loc = loc[1]
            fs = acc + fs
            v = ('init', loc)
            break
        elif v[0] in ('copy', 'mv') and len(v) == 2:
            v = v[1]
        else:
            break
    return v, fs


def visits(p, lids, v, cont, whole=True):
    """v is (a member of) the element of one of the loops lids, and that loop runs over cont,
    from the first element to the last"""
    el, _ = peel(v)
    for lid in lids:
        evs = loop_events(p, lid)
        beg = [e for e in evs if e.info == 'begin']
        if not beg:
            continue
        broke = any(e.info == 'break' for e in evs)
        ends = [e for e in evs if e.info == 'iterend']
        exits = [e for e in evs if e.info == 'exit']
        if whole and (broke or (ends and not exits)):
            continue
        if isinstance(el, tuple) and el and el[0] == 'elem' and el[2] == lid and cont(el[1]):
            return True
        for var, entry, cur in beg[0].args or ():
            cs = None
            if el in (('init', ('d', cur)), ('call', '*', cur)) and entry[0] == 'call' and entry[1] == 'begin' and cont(entry[2]):
                cs = ('call', 'end', entry[2])
                good = all(e.facts.entails(eq(b, cs)) for e in exits for v2, _, b in e.args if v2 == var)
            elif el[0] == 'call' and el[1] in ('[]', 'std::vector::operator[]', 'std::vector::at') and el[-1] == cur and is_zero(entry) and cont(el[2]):
                good = all(e.facts.entails(ge(b, size(el[2]))) for e in exits for v2, _, b in e.args if v2 == var)
            elif el[0] == 'init' and el[1][0] == 'ix' and el[1][2] == cur and is_zero(entry) and cont(('init', el[1][1])):
                good = all(e.facts.entails(ge(b, size(('init', el[1][1])))) for e in exits for v2, _, b in e.args if v2 == var)
            else:
                continue
            step = all(stepped(a, b) for e in ends for v2, a, b in e.args if v2 == var)
            if cs is None:
                bound = size(el[2]) if el[0] == 'call' else size(('init', el[1][1]))
                good = good and all(e.facts.entails(lt(cur, bound)) for e in ends)
            if step and (good or not whole):
                return True
    return False


def is_zero(v):
    return v == ZERO or v == C(0)


def folds(p, val):
    """val is what a loop left in a variable: (entry, value in the iteration, value after it, loop, facts at the end of the iteration)"""
    for e in p.events:
        if e.kind == 'loop' and e.info == 'exit':
            for v, _, b in e.args or ():
                if b == val:
                    lid = e.val[1]
                    ent = cur = end = ef = None
                    for x in loop_events(p, lid):
                        for v2, a2, b2 in x.args or ():
                            if v2 == v and x.info == 'begin':
                                ent, cur = a2, b2
                            elif v2 == v and x.info == 'iterend':
                                end, ef = b2, x.facts
                    return ent, cur, end, lid, ef
    if isinstance(val, tuple) and val[:1] == ('.',):
        f = folds(p, val[1])
        if f:
            ent, cur, end, lid, ef = f
            pr = lambda x: None if x is None else Engine.project(x, val[2])
            return pr(ent), pr(cur), pr(end), lid, ef
    return None


def subterms(v):
    """every tuple inside v, v included"""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


def stepped(a, b):
    """b is one past a, for a counter or an iterator"""
    return sub(b, a) == C(1) or b[:1] == ('mut',) and b[1] in ('operator++', 'std::advance') and b[2] == a


def decide(facts, v):
    """v with the comparisons the facts decide replaced by 0 and 1"""
    if v[0] == 'op' and v[1] in ('==', '!=', '<', '<=', '>', '>=', '!', '&&', '||'):
        t = truth(v)
        if t is True or t is not False and facts.entails(t):
            return C(1)
        if t is False or facts.refutes(t):
            return C(0)
        return v
    if v[0] == 'lin':
        r = C(v[1])
        for t, k in v[2]:
            r = add(r, decide(facts, t), k)
        return r
    return v


def consistent(f):
    """no comparison used as a number contradicts what is known"""
    for l in f.all():
        if l[0] in ('and', 'or') or not any(t[0] == 'op' for t, k in l[1]):
            continue
        d = decide(f, ('lin', 0, l[1]))
        if d[0] == 'c':
            v, c = d[1], l[2]
            if not {'eq': v == c, 'ne': v != c, 'le': v <= c, 'ge': v >= c}[l[0]]:
                return False
    return True


def possible(F, *ts):
    """can all of ts hold together with F, as far as the solver sees?"""
    fs = [F]
    for t in ts:
        if t is False:
            return False
        if t is not True:
            fs = [g for f in fs for g in f.with_(t)]
    return any(consistent(f) for f in fs)


def exact(cx, s, paths, conds, where=None):
    """a bool function is true exactly if all of conds [(what, truth)] hold"""
    n = {True: 0, False: 0}
    for p, b, F in bool_cases(paths):
        n[bool(b)] += 1
        if b:
            for what, t in conds:
                cx.ob(not possible(F, tneg(t)), s, 'true only if ' + what, where, p)
        else:
            cx.ob(not possible(F, *[t for _, t in conds]), s, 'false only if one of the conditions fails', where, p)
    cx.ob(n[True] and n[False], s, 'has both results', where)


def shape(p, v):
    """how a text was put together on path p: a list of parts, ('rep', loop, [parts]) for what
    a loop appended in each of its turns"""
    if is_call(v, 'cat', '+') or v[:1] == ('cat',):
        out = []
        for x in (v[2:] if v[0] == 'call' else v[1:]):
            if isinstance(x, tuple) and x and isinstance(x[0], tuple):
                for y in x:
                    out += shape(p, y)
            else:
                out += shape(p, x)
        return out
    f = folds(p, v)
    if f and f[2] is not None:
        ent, cur, end, lid, ef = f
        body = shape(p, end)
        if body[:1] == [cur]:
            pre = shape(p, ent) if ent != ('s', '') else []
            return pre + [('rep', lid, body[1:])]
        if body == [cur]:
            return shape(p, ent)
    if v == ('s', '') or v[0] == 'ctor' and 'stream' in v[1] and v[2] == ():
        return []
    return [v]


def zero_loops(p):
    return [e for e in p.events if e.kind == 'loop' and e.info == 'zero']


def lasting(e, F):
    """facts at the end of the iteration e, given how the function ended: a flag that lets every further iteration
    start, and that F knows to have stayed set, was set at the end of each of them"""
    fs = e.facts
    for v, cur, end in e.args or ():
        if cur is None or end is None or cur == end:
            continue
        for on, t in ((ne(cur, ZERO), truth(end)), (eq(cur, ZERO), tneg(truth(end)))):
            if e.facts.entails(on) and F.entails(t):
                r = fs.with_(t)
                if len(r) == 1:
                    fs = r[0]
    return fs


def stems(p, x):
    """the values a variable that loops have changed was given: (before or by an iteration)"""
    f = folds(p, x)
    if f is None:
        return [x]
    out = []
    for y in (f[0], f[3 - 1]):
        out += stems(p, y) if y is not None and y != x else []
    return out
