"""Internal keys and scans: S06, C17."""
from qdb.common import *
from rules.r_store import contains_term, contains_any, contains_name, flat, SM
from rules.r_dispatch import fld, emp, rets, anyof

KC = 'quarkdb::KeyConstants::'
IK = 'quarkdb::InternalKeyType::'
SU = 'quarkdb::StringUtils::'
SA = 'quarkdb::ScanCommandArguments::'
PURE = ('~StringUtils::startsWith$', '~StringUtils::isPrefix$', '~extractPatternPrefix$', '~stringmatchlen$', '~FieldLocator::(toView|getPrefix|getPrefixSize)$',
        '~DescriptorLocator::toView$', '~EscapedPrefixExtractor::(getOriginalPrefix|getRawSuffix|getRawPrefix)$', '~ParseUtils::parseInt64$')
OPQ = ('~StagingArea::', '~getKeyDescriptor$', '~assertKeyType$', '~isWrongType', '~FieldLocator::reset', '~DescriptorLocator::reset', '~EscapedPrefixExtractor::parse$', '~KeyDescriptor::')


# ---------------------------------------------------------------- S06
@rule('S06', 'names', 'every reserved key has its own name under a marker of its own, and the table of them is complete')
def s06_names(cx):
    consts = {k: const_str(cx, k) for k in cx.p.glob if k.startswith(KC + 'k')}
    cx.need(consts, 'KeyConstants')
    cx.ob(len(set(consts.values())) == len(consts) and None not in consts.values(), 'KeyConstants', 'every reserved key has a distinct name')
    mark = chr(cx.p.enumval[IK + 'kInternal'])
    for k, v in sorted(consts.items()):
        if '::kStateMachine_' in k:
            cx.ob(bool(v) and v[0] == mark, k.split('::')[-1], 'lives under the internal marker')
    iv = {k: v for k, v in cx.p.enumval.items() if k.startswith(IK)}
    uv = {k: v for k, v in cx.p.enumval.items() if k.startswith('quarkdb::KeyType::') and not k.endswith('::kNull')}
    cx.need(iv and uv, 'key types')
    vals = list(iv.values()) + list(uv.values())
    cx.ob(len(set(vals)) == len(vals), 'key types', 'no two types of entries share their marker')
    # values persisted in existing stores
    want = {'kInternal': '_', 'kConfiguration': '~', 'kDescriptor': '!', 'kExpirationEvent': '@'}
    for k, c in want.items():
        cx.ob(iv.get(IK + k) == ord(c), 'InternalKeyType::' + k, 'keeps its marker on disk')
    # the table
    fs = [f for k, f in cx.p.fn.items() if KC in k and f.get('ctor')] + [f for k, f in cx.p.fn.items() if k.startswith(KC) and not f.get('ctor')]
    listed = []
    tab = KC + 'allKeys'
    for f in fs:
        for p in cx.paths(f):
            cx.ob(p.outcome == 'return', 'KeyConstants::allKeys', 'is filled unconditionally', f['file'], p)
            mine = []
            for e in p.events:
                if e.kind == 'call' and e.objloc == ('g', tab):
                    cx.ob(e.name.split('::')[-1] in ('push_back', 'emplace_back') and e.args[0][0] == 's', 'KeyConstants::allKeys', 'only grows', e.where(), p)
                    mine.append(e.args[0][1] if e.args and e.args[0][0] == 's' else None)
            listed.append(mine)
    g = cx.p.glob.get(tab)
    cx.need(g, 'KeyConstants::allKeys')
    init = [x.get('v') for x in walk(g) if isinstance(x, dict) and x.get('k') == 'str']
    refs = [consts.get(x.get('n')) for x in walk(g) if isinstance(x, dict) and x.get('k') == 'ref']
    got = set(x for l in listed for x in l) | set(init) | set(refs)
    for k, v in sorted(consts.items()):
        cx.ob(v in got, 'KeyConstants::allKeys', 'lists ' + k.split('::')[-1])
    # every journal / store key in use is one of the constants
    n = 0
    for k, f in cx.p.fn.items():
        if not f['file'].endswith(('StateMachine.cc', 'RaftJournal.cc')):
            continue
        for x in walk(f['body']):
            if x.get('k') == 'str' and isinstance(x.get('v'), str) and (x['v'].startswith('RAFT_') and x['v'].isupper() or x['v'].startswith('__')) and x['v'] not in consts.values():
                cx.ob(False, short(f['name']), 'uses a reserved key that is not in the table: ' + x['v'], f['file'])
            n += x.get('k') == 'ref' and str(x.get('n')).startswith(KC)
    cx.ob(n > 0, 'KeyConstants', 'are used')
    # who lists the table
    f = cx.fn('quarkdb::RecoveryEditor::retrieveMagicValues')
    s = 'retrieveMagicValues'
    n = 0
    for p in cx.paths(f):
        for e in p.calls('rocksdb::DB::Get'):
            n += 1
            cx.ob(e.loops and visits(p, e.loops, e.args[1], lambda c: c in (('gv', tab), ('init', ('g', tab)))), s, 'looks up every reserved key', e.where(), p)
            L = e.loops[-1]
            out = [x for x in p.events if x.kind == 'call' and x.name.endswith(('emplace_back', 'push_back')) and L in x.loops and x.n > e.n and not x.name.startswith('std::basic')]
            good = any(e.args[1] in subterms(x.args[0]) for x in out)
            okp = isok(p.facts, result(e))
            if any(x.kind == 'loop' and x.info == 'iterend' and x.val[1] == L for x in p.events):
                cx.ob(good, s, 'reports every reserved key', e.where(), p)
                if okp:
                    cx.ob(any(contains_term(x.args[0], outv(e, 2)) for x in out), s, 'with its value', e.where(), p)
                else:
                    cx.ob(p.facts.entails(tneg(ok(result(e)))), s, 'an error only on an error', e.where(), p)
    cx.ob(n > 0, s, 'looks up keys')


def key_of(v):
    """the iterator value whose key this is"""
    for t in subterms(v):
        if is_call(t, 'rocksdb::Iterator::key'):
            return t
    return None


def first_char_is(F, K, kind, neg=False):
    c = ('e', IK + kind)
    for l in F.all():
        if l[0] == ('ne' if neg else 'eq'):
            for v in subterms(l):
                if is_call(v, '[]', 'front') and (contains_term(v[2], K) if K else key_of(v[2])) and (len(v) < 4 or v[3] == ZERO) and contains_term(l, c):
                    return True
    return False


@rule('S06', 'listings', 'listings show only keys of users')
def s06_listings(cx):
    f = cx.fn(SM + 'scan', pred=lambda f: 'StagingArea' in f['params'][0]['t'])
    s = 'scan'
    n = 0
    for p in cx.paths(f, opaque=OPQ, pure=PURE):
        for e in p.events:
            if e.kind == 'call' and e.name in ('std::vector::push_back', 'std::vector::emplace_back') and e.args:
                n += 1
                K = key_of(e.args[0])
                cx.ob(K is not None and (first_char_is(e.facts, K, 'kDescriptor') or prefix_desc(e.facts, K)), s, 'lists only described keys', e.where(), p)
                cx.ob(K is not None and whole_tail(e.args[0], K), s, 'by their name', e.where(), p)
    cx.ob(n > 0, s, 'lists keys')
    for nm in ('keys', 'exists'):
        for f in cx.p.fns(SM + nm):
            if 'StagingArea' not in f['params'][0]['t']:
                continue
            used = {g for p in cx.paths(f, opaque=('~StagingArea::', '~StateMachine::')) for g in [e.name for e in p.events if e.kind == 'call']}
            cx.ob(not any('getIterator' in g for g in used), nm, 'goes through the same listing', f['file'])
    f = cx.fn(SM + 'configGetall', pred=lambda f: 'StagingArea' in f['params'][0]['t'])
    n = 0
    for p in cx.paths(f, opaque=OPQ, pure=PURE):
        for e in p.events:
            if e.kind == 'call' and e.name in ('std::vector::push_back', 'std::vector::emplace_back') and e.args:
                K = key_of(e.args[0])
                n += 1
                cx.ob(first_char_is(e.facts, K, 'kConfiguration'), 'configGetall', 'lists only configuration', e.where(), p)
                cx.ob(K is None or whole_tail(e.args[0], K), 'configGetall', 'by its name', e.where(), p)
    cx.ob(n > 0, 'configGetall', 'lists configuration')
    # wiping all data leaves the internal keys alone
    f = cx.fn(SM + 'remove_all_with_prefix')
    s = 'remove_all_with_prefix'
    n = 0
    for p in cx.paths(f, opaque=OPQ, pure=PURE):
        for e in p.calls('~StagingArea::del$', '~StagingArea::singleDelete$'):
            n += 1
            K = key_of(e.args[0])
            safe = lambda k: first_char_is(e.facts, K, k, neg=True) or any(e.facts.entails(eq(size(v), ZERO)) for v in (K, e.args[0]) if v)
            cx.ob(K is not None and safe('kInternal') and safe('kConfiguration'), s, 'internal keys and configuration survive', e.where(), p)
            cx.ob(any(is_call(v, '~startsWith$', '~isPrefix$') and e.facts.entails(ne(v, ZERO)) and P(f, 0) in v for l in e.facts.all() for v in subterms(l)), s, 'removes only keys with the prefix', e.where(), p)
    cx.ob(n > 0, s, 'removes')
    # the marker of each locator
    for loc, kind in (('DescriptorLocator', 'kDescriptor'), ('ConfigurationLocator', 'kConfiguration')):
        for g in cx.p.methods('quarkdb::' + loc):
            if not g['name'].endswith('::reset'):
                continue
            for p in cx.paths(g):
                w = [e for e in p.events if e.kind == 'write' and ('e', IK + kind) in subterms(e.val if e.val is not None else ())]
                cx.ob(len(w) == 1, loc, 'marks its keys', g['file'], p)


def prefix_desc(F, K):
    return any(is_call(v, '~startsWith$', '~isPrefix$') and F.entails(ne(v, ZERO)) and contains_term(v, K) and ('e', IK + 'kDescriptor') in subterms(v) for l in F.all() for v in subterms(l))


def whole_tail(v, K):
    """the key without its first byte"""
    return is_call(v, 'substr') and v[2] == K and v[3] == C(1) and (len(v) < 5 or v[4] == C(2**63 - 1) or v[4] == C(2**64 - 1)) or \
        v[0] == 'ctor' and v[2] and any(t == ('lin', 1, ((('call', x, K), 1),)) for x in ('data', 'begin') for t in v[2]) or \
        is_call(v, 'remove_prefix') or v == ('tail', K, 1)


@rule('S06', 'raw', 'raw rocksdb keys are told apart by their type byte')
def s06_raw(cx):
    import re
    f = cx.fn('quarkdb::getInternalKeyType')
    g = cx.fn('quarkdb::isTombstone')
    vt = {k: v for k, v in cx.p.enumval.items() if k.startswith('quarkdb::ValueType::')}
    std = {'kTypeDeletion': 0, 'kTypeValue': 1, 'kTypeMerge': 2, 'kTypeSingleDeletion': 7, 'kTypeRangeDeletion': 15, 'kTypeBlobIndex': 17}
    for k, v in std.items():
        cx.ob(vt.get('quarkdb::ValueType::' + k) == v, 'ValueType::' + k, 'has the value rocksdb gives it')
    cx.ob(len(set(vt.values())) == len(vt), 'ValueType', 'distinct values')
    K = P(f, 0)
    TB = ('op', '&', C(255), ('load', ('lin', -8, ((('call', 'data', K), 1), (size(K), 1))), C(8)))
    names = {}
    for p in cx.paths(f):
        s = 'getInternalKeyType'
        if p.facts.entails(lt(size(K), C(8))):
            cx.ob(p.val[0] == 's' and 'invalid' in p.val[1], s, 'a short key has no type', f['file'], p)
            continue
        cx.ob(p.facts.entails(ge(size(K), C(8))), s, 'reads the type only of a key long enough', f['file'], p)
        t = [k for k in vt if any(p.facts.entails(eq(x, ('e', k))) for x in type_bytes(p.facts, K))]
        t = [k for k in t if k.split('::')[-1].startswith('kType')]
        if t:
            k = t[0].split('::')[-1]
            want = re.sub(r'(?<!^)([A-Z]+)', r' \1', k[5:]).lower() if k.startswith('kType') else None
            cx.ob(p.val == ('s', want), s, 'names the type: ' + k, f['file'], p)
            names[k] = p.val
        else:
            cx.ob(p.val not in names.values() and p.val == ('s', '(cannot determine key type)'), s, 'unknown types have no name', f['file'], p)
    cx.ob(len(set(names.values())) == len(names) and {'kTypeDeletion', 'kTypeValue', 'kTypeSingleDeletion'} <= set(names), 'getInternalKeyType', 'tells types apart')
    K = P(g, 0)
    for p, b, F in bool_cases(cx.paths(g)):
        short_ = F.entails(lt(size(K), C(8)))
        if short_:
            cx.ob(not b, 'isTombstone', 'a short key is not a tombstone', g['file'], p)
            continue
        cx.ob(F.entails(ge(size(K), C(8))), 'isTombstone', 'reads the type only of a key long enough', g['file'], p)
        tb = type_bytes(F, K)
        E = lambda n: ('e', 'quarkdb::ValueType::' + n)
        if b:
            cx.ob(any(F.entails(eq(t, E(n))) for t in tb for n in ('kTypeDeletion', 'kTypeSingleDeletion')), 'isTombstone', 'only deletions are tombstones', g['file'], p)
        else:
            cx.ob(any(F.entails(ne(t, E('kTypeDeletion'))) and F.entails(ne(t, E('kTypeSingleDeletion'))) for t in tb), 'isTombstone', 'all deletions are tombstones', g['file'], p)


def type_bytes(F, K):
    """terms reading the lowest byte of the trailing 8 bytes of K"""
    end8 = lambda v: v[0] == 'load' and v[1] == ('lin', -8, tuple(sorted(((('call', 'data', K), 1), (size(K), 1))))) or v[0] == 'load' and v[1][0] == 'lin' and v[1][1] == -8 and set(v[1][2]) == {(('call', 'data', K), 1), (size(K), 1)}
    out = []
    for l in F.all():
        for v in subterms(l):
            if v[0] == 'op' and v[1] == '&' and C(255) in v[2:] and any(end8(x) for x in v[2:]):
                out.append(v)
            elif is_call(v, '[]') and v[2] == K and v[3] == sub(size(K), C(8)):
                out.append(v)
            elif end8(v) and v[2] == C(1):
                out.append(v)
    return out


# ---------------------------------------------------------------- C17
@rule('C17', 'arguments', 'malformed scan arguments are refused')
def c17_arguments(cx):
    f = cx.fn('quarkdb::parseScanCommand')
    s = 'parseScanCommand'
    b0 = ('init', ('d', P(f, 0)))
    n = dict.fromkeys(('ok', 'count', 'match', 'matchloc'), 0)
    CI = lambda x, w: ('call', 'quarkdb::caseInsensitiveEquals', x, ('s', w))
    for p in cx.paths(f, pure=('~StringUtils::startsWith$', '~StringUtils::isPrefix$')):
        F = p.facts
        if p.outcome == 'throw':
            cx.ob(F.entails(eq(P(f, 0), P(f, 1))), s, 'asserts only that there is a cursor', f['file'], p)
            continue
        g = lambda k: Engine.project(p.val, SA + k)
        begs = [x for x in p.events if x.kind == 'loop' and x.info == 'begin']
        if p.outcome == 'return':
            err = g('error')
            first = F.entails(eq(b0, ('s', '0')))
            nxt = any(is_call(v, '~startsWith$') and v[2] == b0 and v[3] == ('s', 'next:') and F.entails(ne(v, ZERO)) for l in F.all() for v in subterms(l))
            if not (first or nxt):
                cx.ob(err != ('s', '') and err[0] == 's', s, 'an unknown cursor is refused', f['file'], p)
                continue
            cur = g('cursor')
            if first:
                cx.ob(cur == ('s', ''), s, '0 starts over', f['file'], p)
            else:
                cx.ob(cur == ('ctor', 'std::string', (add(('call', 'data', b0), C(5)), sub(size(b0), C(5)))) or is_call(cur, 'substr') and cur[2] == b0 and cur[3] == C(5) and (len(cur) < 5 or cur[4][1] >= 2**63 - 1), s, 'the cursor is what follows next:', f['file'], p)
            fin = [x for x in p.events if x.kind == 'loop' and x.info in ('exit', 'zero')]
            cx.ob(all(any(a == add(P(f, 0), C(1)) for v, a, b in x.args) for x in begs), s, 'looks at every argument after the cursor', f['file'], p)
            if not fin and 'loop' in [x.kind for x in p.events]:
                cx.ob(err != ('s', ''), s, 'what is not understood is refused', f['file'], p)
            if err == ('s', ''):
                n['ok'] += 1
                posend = any(l[0] == 'eq' and P(f, 1) in subterms(l) for l in F.all())
                cx.ob(posend, s, 'accepts only when all arguments were understood', f['file'], p)
                if not begs:
                    cx.ob(g('count') == C(100) and g('match') == ('s', '') and g('matchloc') == ('s', ''), s, 'defaults', f['file'], p)
        for x in p.events:
            if x.kind == 'loop' and x.info == 'iterend' and begs and x.val == begs[0].val:
                G = x.facts
                pos = next((a for v, a, b in x.args if a is not None and b == add(a, C(2)) and a[0] == 'hav'), None)
                cx.ob(pos is not None, s, 'goes through the arguments in pairs', f['file'], p)
                if pos is None:
                    continue
                cx.ob(G.entails(ne(pos, P(f, 1))) and G.entails(ne(add(pos, C(1)), P(f, 1))), s, 'every option has a value', f['file'], p)
                word, val = ('init', ('d', pos)), ('init', ('d', add(pos, C(1))))
                ch = {}
                for v, a, c in x.args:
                    if isinstance(v[1], tuple) and isinstance(v[1][1], tuple) and v[1][1] and v[1][1][-1].startswith(SA) and c != a:
                        ch[v[1][1][-1].split('::')[-1]] = c
                if 'count' in ch:
                    n['count'] += 1
                    pi = ('call', 'quarkdb::ParseUtils::parseInt64', val)
                    cx.ob(set(ch) == {'count'} and G.entails(ne(CI(word, 'count'), ZERO)), s, 'count sets the count', f['file'], p)
                    cx.ob(ch['count'] == ('call', 'quarkdb::ParseUtils::parseInt64#1', val) and G.entails(ne(pi, ZERO)) and G.entails(gt(ch['count'], ZERO)), s, 'a count is a positive number', f['file'], p)
                elif 'match' in ch:
                    n['match'] += 1
                    cx.ob(set(ch) == {'match'} and ch['match'] == val and G.entails(ne(CI(word, 'match'), ZERO)) and G.entails(ne(P(f, 2), ZERO)), s, 'match sets the pattern', f['file'], p)
                elif 'matchloc' in ch:
                    n['matchloc'] += 1
                    cx.ob(set(ch) == {'matchloc'} and ch['matchloc'] == val and G.entails(ne(CI(word, 'matchloc'), ZERO)) and G.entails(ne(P(f, 3), ZERO)), s, 'matchloc sets the pattern of localities', f['file'], p)
                else:
                    cx.ob(False, s, 'an unknown option is refused', f['file'], p)
    for k in n:
        cx.ob(n[k] > 0, s, 'handles ' + k)


@rule('C17', 'prefix', 'a pattern never excludes a name it matches')
def c17_prefix(cx):
    f = cx.fn('quarkdb::extractPatternPrefix')
    s = 'extractPatternPrefix'
    A = P(f, 0)
    special = '?*[]\\'
    n = 0
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        its = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend']
        for x in its:
            st = next((a for v, a, b in x.args if b == add(a, C(1))), None)
            ch = ('call', '[]', A, st)
            cx.ob(st is not None and all(x.facts.entails(ne(ch, C(ord(c)))) for c in special), s, 'passes only over plain characters', f['file'], p)
            n += 1
        cut = next((b for x in p.events if x.kind == 'loop' and x.info == 'begin' for v, a, b in x.args if b is not None and contains_term(p.val, b)), None)
        if p.val in (A, ('ctor', 'std::string', (A,)), ('copy', A)):
            rng = [x for x in p.events if x.kind == 'loop' and x.info in ('exit', 'zero')]
            cx.ob(bool(rng), s, 'the whole pattern only when it is plain', f['file'], p)
            for x in p.events:
                if x.kind == 'loop' and x.info == 'begin':
                    cx.ob(any(a == ZERO for v, a, b in x.args), s, 'looks from the first character', f['file'], p)
        else:
            stop = [b for x in p.events if x.kind == 'loop' and x.info in ('exit', 'zero') for v, a, b in x.args or () if b is not None and p.val == ('call', 'substr', A, ZERO, b)]
            zero = p.val == ('call', 'substr', A, ZERO, ZERO)
            if zero and p.facts.entails(le(size(A), ZERO)) or stop and any(p.facts.entails(ge(b, size(A))) for b in stop):
                continue        # all of it
            cx.ob(cut is not None and is_prefix_of(p.val, A, cut), s, 'otherwise the plain characters before', f['file'], p)
    cx.ob(n > 0, s, 'looks at the pattern')
    for nm, flip in (('startsWith', False), ('isPrefix', True)):
        for g in cx.p.fns(SU + nm):
            one_prefix_fn(cx, g, nm)


def is_prefix_of(v, A, n):
    return v == ('ctor', 'std::string', (('call', 'begin', A), add(('call', 'begin', A), n))) or is_call(v, 'substr') and v[2:] == (A, ZERO, n) or v == ('ctor', 'std::string', (('call', 'data', A), n))


def one_prefix_fn(cx, g, nm):
    """startsWith(str, prefix) / isPrefix(prefix, str, len)"""
    s = 'StringUtils::' + nm
    if nm == 'startsWith':
        S, X, ls, lx = P(g, 0), P(g, 1), size(P(g, 0)), size(P(g, 1))
    else:
        X, S = P(g, 0), P(g, 1)
        lx, ls = size(X), P(g, 2) if len(g['params']) > 2 else size(S)
    ch = lambda v, i: [('call', '[]', v, i), ('init', ('i', v, i)), ('load', add(v, i), C(1))]
    for p, b, F in bool_cases(cx.paths(g)):
        its = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend']
        if b and isinstance(p.val, tuple) and is_eq_op(p.val, S, X, lx):
            continue
        if not its and not [x for x in p.events if x.kind == 'loop']:
            if b:
                cx.ob(F.entails(le(lx, ZERO)) or any(is_eq_op(v, S, X, lx) for l in F.all() for v in subterms(l)), s, 'true only for a prefix', g['file'], p)
            else:
                cx.ob(F.entails(gt(lx, ls)) or any(is_eq_op(v, S, X, lx) for l in F.all() for v in subterms(l)), s, 'false only when it is not a prefix', g['file'], p)
            continue
        for x in its:
            st = next((a for v, a, e in x.args if e == add(a, C(1))), None)
            cx.ob(st is not None and same_char(x.facts, S, X, st), s, 'compares character by character', g['file'], p)
        if b:
            ok_ = F.entails(le(lx, ls)) and all(any(a == ZERO for v, a, e in x.args) for x in p.events if x.kind == 'loop' and x.info == 'begin')
            ex = [x for x in p.events if x.kind == 'loop' and x.info == 'exit']
            zero = [x for x in p.events if x.kind == 'loop' and x.info == 'zero']
            done = F.entails(le(lx, ZERO)) or any(F.entails(ge(val, lx)) for x in ex for v, _, val in x.args if val is not None) if ex or zero else False
            cx.ob(ok_ and done, s, 'true only for a prefix', g['file'], p)
        else:
            cx.ob(F.entails(gt(lx, ls)) or any(l[0] == 'ne' and contains_term(l, S) and contains_term(l, X) for l in F.all()), s, 'false only when it is not a prefix', g['file'], p)


def same_char(F, S, X, i):
    for l in F.all():
        if l[0] == 'eq' and len(l[1]) == 2:
            a, b = l[1][0][0], l[1][1][0]
            has = lambda t, v: contains_term(t, v) and contains_term(t, i)
            if has(a, S) and has(b, X) or has(b, S) and has(a, X):
                return True
    return False


def is_eq_op(v, S, X, lx):
    """S.substr(0, len) == X, S.compare(0, len, X) == 0, memcmp(...) == 0"""
    if not isinstance(v, tuple):
        return False
    t = repr(v)
    return contains_term(v, S) and contains_term(v, X) and contains_term(v, lx) and any(w in t for w in ('compare', 'memcmp', 'strncmp', 'substr', 'starts_with'))


LISTS = {
    # name: (elements per entry, index of key, cursor, count, new cursor, results)
    'hkeys': (1, None, None, None), 'hgetall': (2, None, None, None), 'hvals': (1, None, None, None), 'smembers': (1, None, None, None),
    'vhgetall': (2, None, None, None), 'hscan': (2, 'cursor', 'count', 'newCursor'), 'sscan': (1, 'cursor', 'count', 'newCursor'),
    'lhscan': (3, 'cursor', 'count', 'newCursor'), 'scan': (1, 'cursor', 'count', 'newcursor'),
}
ORDER = {'hscan': (1, 2, 3, 4, 5), 'sscan': (1, 2, 3, 4, 5), 'lhscan': (1, 2, 4, 5, 6), 'scan': (None, 1, 3, 4, 5), 'hkeys': (1, None, None, None, 2), 'hgetall': (1, None, None, None, 2),
         'hvals': (1, None, None, None, 2), 'smembers': (1, None, None, None, 2), 'vhgetall': (1, None, None, None, 2)}


@rule('C17', 'lists', 'a listing visits every element of its key and no other, and stops only at its limit')
def c17_lists(cx):
    for nm in LISTS:
        f = cx.fn(SM + nm, pred=lambda f: 'StagingArea' in f['params'][0]['t'])
        one_list(cx, f, nm)


def one_list(cx, f, nm):
    s = nm
    per = LISTS[nm][0]
    ik, ic, ico, inc, ir = ORDER[nm]
    R = ('var', f['params'][ir]['id'], 0)
    NC = ('var', f['params'][inc]['id'], 0) if inc else None
    cnt = P(f, ico) if ico else None
    n = {'elem': 0, 'end': 0, 'limit': 0}
    for p in cx.paths(f, opaque=OPQ, pure=PURE):
        if p.outcome != 'return':
            continue
        seek = p.calls('rocksdb::Iterator::Seek', 'rocksdb::Iterator::SeekToFirst')
        if not seek:
            continue
        cx.ob(len(seek) == 1, s, 'starts once', f['file'], p)
        begs = [x for x in p.events if x.kind == 'loop' and x.info == 'begin' and x.n > seek[0].n]
        cw = [e for e in p.events if e.kind == 'write' and NC and e.loc == NC or e.kind == 'call' and NC and e.objloc == NC and e.name.endswith('::clear')]
        last = cw[-1] if cw else None
        cleared = lambda e: e is not None and (e.kind == 'call' or e.val in (('s', ''), ('ctor', 'std::string', ())))
        if not begs:
            if NC:
                cx.ob(cleared(last), s, 'an empty listing is over', f['file'], p)
            continue
        L = begs[0].val[1]
        pushes = [e for e in p.events if e.kind == 'call' and e.objloc == R and L in e.loops and e.name.split('::')[-1] in ('push_back', 'emplace_back')]
        for e in pushes:
            F = e.facts
            pf = [v for l in F.all() for v in subterms(l) if is_call(v, '~startsWith$', '~isPrefix$') and F.entails(ne(v, ZERO)) and key_of(v)]
            own = any(not contains_any(v[3], [P(f, ic)] if ic else []) for v in pf)
            cx.ob(bool(pf) or nm == 'scan' and first_char_is(F, None, 'kDescriptor'), s, 'lists only elements of its key', e.where(), p)
            if nm == 'lhscan':
                cx.ob(own, s, 'the cursor says where to start, not where to end', e.where(), p)
        for x in p.events:
            if x.kind != 'loop' or x.val[1] != L:
                continue
            nx = [e for e in p.calls('rocksdb::Iterator::Next') if L in e.loops]
            if x.info == 'iterend':
                n['elem'] += 1
                cx.ob(len(nx) == 1 and all(e.n < nx[0].n for e in pushes), s, 'one step per element', f['file'], p)
                skip = nm in ('scan', 'lhscan') and not pushes and any(is_call(v, '~stringmatchlen$') and x.facts.entails(eq(v, ZERO)) for l in x.facts.all() for v in subterms(l))
                cx.ob(len(pushes) == per or skip, s, 'lists every element', f['file'], p)
                if pushes:
                    shape(cx, s, nm, per, pushes, f, p)
                if cnt:
                    lim = any(contains_term(l, cnt) and l[0] in ('le', 'ge') for l in x.facts.all())
                    cx.ob(lim, s, 'checks its limit at every element', f['file'], p)
                    end = [e for e in cw if L in e.loops]
                    cx.ob(not end, s, 'sets the cursor only when it ends', f['file'], p)
            if x.info in ('break',) or x.info == 'exit' and False:
                F = x.facts
                out = any(is_call(v, '~startsWith$', '~isPrefix$') and F.entails(eq(v, ZERO)) and key_of(v) for l in F.all() for v in subterms(l)) or first_char_is(F, None, 'kDescriptor', neg=True) or nm == 'scan' and any(F.entails(eq(size(K), ZERO)) for l in F.all() for K in [key_of(l)] if K)
                limit = cnt is not None and any(contains_term(l, cnt) for l in F.all()) and not out
                cx.ob(out or limit, s, 'ends only past its last element or at its limit', f['file'], p)
                if limit:
                    n['limit'] += 1
                    at_limit(cx, s, nm, per, last, cnt, R, L, pushes, F, f, p, begs[0])
                elif NC:
                    cx.ob(cleared(last), s, 'past its last element it is over', f['file'], p)
            if x.info == 'exit':
                n['end'] += 1
                if NC:
                    cx.ob(cleared(last), s, 'past its last element it is over', f['file'], p)
                cx.ob(any(is_call(v, '~Valid$') and p.facts.entails(eq(v, ZERO)) for l in p.facts.all() for v in subterms(l)), s, 'goes on while there are elements', f['file'], p)
        # returning from within the loop
        inloop = not [x for x in p.events if x.kind == 'loop' and x.val[1] == L and x.info in ('exit', 'break')]
        if inloop:
            n['limit'] += 1
            at_limit(cx, s, nm, per, last, cnt, R, L, pushes, p.facts, f, p, begs[0])
        start_of(cx, s, nm, seek[0], f, ik, ic, p)
    cx.ob(n['elem'] > 0 and (not cnt or n['limit'] > 0), s, 'lists')


def at_limit(cx, s, nm, per, last, cnt, R, L, pushes, F, f, p, beg):
    cx.ob(not pushes, s, 'stops before the element that is too many', f['file'], p)
    K = key_of(last.val) if last is not None and last.kind == 'write' else None
    cx.ob(K is not None and L in last.loops, s, 'the cursor is the first element not listed', f['file'], p)
    if K is None:
        return
    # exactly count entries were listed
    want = [ge(size(c), mulc(cnt, per)) for v, a, c in beg.args]
    stepv = [(v, a, c) for v, a, c in beg.args if a == ZERO]
    w2 = [gt(add(c, C(1)), cnt) for v, a, c in stepv] + [gt(c, cnt) for v, a, c in stepv]
    cx.ob(any(F.entails(t) for t in want + w2), s, 'stops only at its limit', f['file'], p)
    cx.ob(not any(F.entails(t) for t in [gt(size(c), mulc(cnt, per)) for v, a, c in beg.args]), s, 'stops at its limit', f['file'], p)
    if nm in ('hscan', 'sscan'):
        cx.ob('getPrefixSize' in repr(last.val) and not is_whole(last.val), s, 'the cursor is the name of the element', f['file'], p)


def is_whole(v):
    return is_call(v, 'rocksdb::Iterator::key')


def mulc(v, k):
    r = v
    for _ in range(k - 1):
        r = add(r, v)
    return r


def shape(cx, s, nm, per, pushes, f, p):
    vals = [e.args[0] for e in pushes if e.args]
    K = [key_of(v) for v in vals]
    V = [any(is_call(t, 'rocksdb::Iterator::value') for t in subterms(v)) for v in vals]
    if nm in ('hgetall', 'hscan', 'vhgetall') and len(vals) == 2:
        cx.ob(K[0] is not None and not V[0] and V[1] and K[1] is None, s, 'each element is its name and its value', f['file'], p)
    if nm in ('hkeys', 'smembers', 'sscan') and len(vals) == 1:
        cx.ob(K[0] is not None and not V[0], s, 'each element is its name', f['file'], p)
    if nm == 'hvals' and len(vals) == 1:
        cx.ob(V[0] and K[0] is None, s, 'each element is its value', f['file'], p)
    if nm == 'lhscan' and len(vals) == 3:
        cx.ob('getOriginalPrefix' in repr(vals[0]) and 'getRawSuffix' in repr(vals[1]) and V[2], s, 'each element is its locality, its name and its value', f['file'], p)
    if nm in ('hkeys', 'hgetall', 'smembers', 'vhgetall', 'hscan', 'sscan'):
        # the name is what follows the prefix
        t = vals[0]
        good = 'getPrefixSize' in repr(t) and not is_whole(t)
        cx.ob(good, s, 'the name is what follows the prefix of the key', f['file'], p)


def start_of(cx, s, nm, seek, f, ik, ic, p):
    a = seek.args[0] if seek.args else NOTHING
    if ik is not None and nm != 'lhscan':
        cx.ob(contains_term(a, P(f, ik)), s, 'starts at its key', seek.where(), p)
        if ic is not None:
            cx.ob(contains_term(a, P(f, ic)) and '::toView' in repr(a), s, 'starts at its cursor', seek.where(), p)
    if nm == 'scan':
        r = [e for e in p.calls('~DescriptorLocator::reset$') if e.n < seek.n]
        F = p.facts
        cur = P(f, ic)
        cx.ob(len(r) >= 1 and (r[-1].args[0] == cur and F.entails(ne(size(cur), ZERO)) or F.entails(eq(size(cur), ZERO)) and r[-1].args[0] == ('call', 'quarkdb::extractPatternPrefix', P(f, 2))), s, 'starts at its cursor, or at the first name that can match', seek.where(), p)
        for l in p.facts.all():
            for v in subterms(l):
                if is_call(v, '~isPrefix$', '~startsWith$') and key_of(v):
                    cx.ob(('call', 'quarkdb::extractPatternPrefix', P(f, 2)) in subterms(v), s, 'ends at the last name that can match', f['file'], p)
    if nm == 'lhscan':
        F = p.facts
        cur, pat = P(f, ic), P(f, 3)
        pp = ('call', 'quarkdb::extractPatternPrefix', pat)
        rh = [e for e in p.calls('~LocalityFieldLocator::resetHint$') if e.n < seek.n]
        rf_ = [e for e in p.calls('~LocalityFieldLocator::resetField$') if e.n < seek.n]
        onpp = [e for e in rh if e.args[0] == pp]
        oncur = [e for e in rh if 'getOriginalPrefix' in repr(e.args[0])]
        req = next((v[3] for l in F.all() for v in subterms(l) if is_call(v, '~startsWith$') and key_of(v)), None)
        if req is None:
            return
        if F.entails(ne(size(pp), ZERO)):
            cx.ob(len(onpp) == 1 and contains_term(req, outv(onpp[0], 0)) or bool(onpp) and any(contains_term(req, onpp[0].args[0]) for _ in [0]) or bool(onpp) and 'resetHint' in repr(req), s, 'goes through all localities that can match', f['file'], p)
            part = F.entails(ne(size(pp), size(pat)))
            cut = any(is_call(t, '~resize$', 'substr', '~remove_suffix$') or t[0] == 'mut' and t[1].endswith('resize') for t in subterms(req))
            if part:
                cx.ob(cut and any(t[0] == 'lin' and t[1] == -2 for t in subterms(req)), s, 'a locality may go on after the plain part of the pattern', f['file'], p)
            else:
                cx.ob(F.entails(eq(size(pp), size(pat))) and not cut or cut and False, s, 'a plain pattern is the whole locality', f['file'], p)
        else:
            cx.ob('resetHint' not in repr(req), s, 'goes through all localities', f['file'], p)
        if F.entails(ne(size(cur), ZERO)):
            cx.ob(len(oncur) == 1 and len(rf_) == 1 and 'getRawSuffix' in repr(rf_[0].args[0]), s, 'understands its cursor', f['file'], p)
            for e in oncur:
                cx.ob(e.facts.entails(ne(size(e.args[0]), ZERO)), s, 'a cursor without locality is refused', e.where(), p)
            at = lambda v: any(t[0] == 'mut' and t[1].endswith('::resetField') and 'getRawSuffix' in repr(t) for t in subterms(v))
            cx.ob(at(seek.args[0]) or seek.args[0] == req and any(l[0] in ('ge', 'le', 'gt', 'lt') and contains_term(l, req) and at(l) for l in F.all()), s, 'starts at its cursor', seek.where(), p)
        else:
            cx.ob(seek.args[0] == req, s, 'starts at its first element', seek.where(), p)


@rule('C17', 'deque', 'a scan of a deque lists the items in front of its cursor, as many as asked for')
def c17_deque(cx):
    f = cx.fn(SM + 'dequeScanBack', 6)
    s, cur, cnt = 'dequeScanBack', P(f, 2), P(f, 3)
    NC, R = ('var', f['params'][4]['id'], 0), ('var', f['params'][5]['id'], 0)
    n = {'all': 0, 'part': 0, 'item': 0, 'fresh': 0, 'later': 0}
    for p in cx.paths(f, opaque=('~StagingArea', '~StateMachine::', '~Locator::'), pure=('~KeyDescriptor::', '~quarkdb::unsignedIntToBinaryString$', '~quarkdb::binaryStringToUnsignedInt$')):
        if p.outcome != 'return':
            continue
        begs = [e for e in p.events if e.kind == 'loop' and e.info in ('begin', 'zero')]
        cw = [e for e in p.events if e.kind == 'write' and e.loc == NC or e.kind == 'call' and e.objloc == NC and e.name.endswith('::clear')]
        last = cw[-1] if cw else None
        cleared = last is not None and (last.kind == 'call' or last.val in (('s', ''), ('ctor', 'std::string', ())))
        F = p.facts
        seek = p.calls('rocksdb::Iterator::Seek')
        if not seek:
            # wrong type, malformed cursor, nothing there
            if p.events and any(e.kind == 'call' and e.name.endswith('Status::OK') for e in p.events):
                cx.ob(cleared, s, 'an empty listing is over', f['file'], p)
                cx.ob(any(F.entails(eq(v, ZERO)) for l in F.all() for v in subterms(l) if is_call(v, '~KeyDescriptor::getSize$')), s, 'lists nothing only when there is nothing', f['file'], p)
            continue
        n['fresh' if F.entails(eq(size(cur), ZERO)) else 'later'] += 1
        for e in p.calls('~binaryStringToUnsignedInt$'):
            cx.ob(e.facts.entails(eq(size(cur), C(8))), s, 'refuses malformed cursors', e.where(), p)
        cx.ob(F.entails(eq(size(cur), ZERO)) or F.entails(eq(size(cur), C(8))), s, 'refuses malformed cursors', f['file'], p)
        cx.ob(any(F.entails(ne(v, ZERO)) for l in F.all() for v in subterms(l) if is_call(v, '~KeyDescriptor::getSize$')), s, 'reads the indexes only of deques that exist', f['file'], p)
        fl = [e for e in p.calls('~FieldLocator::FieldLocator$') if len(e.args) == 3]
        b = next((a for e in fl for a in [e.args[2]] if is_call(a, 'quarkdb::unsignedIntToBinaryString')), None)
        cx.ob(len(fl) == 1 and b is not None and fl[0].args[0] == ('e', 'quarkdb::KeyType::kDeque') and fl[0].args[1] == P(f, 1), s, 'starts at an item of its key', f['file'], p)
        if b is None:
            continue
        lo = b[2]
        kd = lambda w: [v for l in list(F.all()) + [('x', lo)] for v in subterms(l) if is_call(v, '~KeyDescriptor::get%sIndex$' % w)]
        starts, ends = kd('Start'), kd('End')
        first = [v for v in starts if lo == add(v, C(1))]
        if any(not F.with_(ge(v, ZERO)) for v in starts):
            continue    # indexes are not negative
        if first:
            n['all'] += 1
            cx.ob(cleared, s, 'past the front it is over', f['file'], p)
        else:
            n['part'] += 1
            hi = add(lo, cnt)
            cx.ob(any(F.entails(gt(lo, add(v, C(1)))) for v in starts), s, 'there are more items in front', f['file'], p)
            cx.ob(last is not None and last.kind == 'write' and last.val == b, s, 'the cursor is the last item listed', f['file'], p)
            cx.ob(not contains_term(hi, cnt) and (F.entails(lt(cnt, hi)) or F.entails(le(cnt, hi))), s, 'lists as many items as asked for, even if there are fewer', f['file'], p)
        its = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
        for e in its:
            n['item'] += 1
            st = [(v, a, c) for (v, a, c) in begs[0].args if a == lo]
            step = [(a, c) for v, a, c in e.args if any(v == v2 for v2, _, _ in st)]
            cx.ob(len(st) == 1 and step and sub(step[0][1], step[0][0]) == C(1), s, 'goes on item by item', f['file'], p)
            if not st:
                continue
            c = st[0][2]
            push = [x for x in p.calls('~(push|emplace)_back$') if x.objloc == R and x.loops]
            nxt = [x for x in p.calls('rocksdb::Iterator::Next') if x.loops]
            cx.ob(len(push) == 1 and len(nxt) == 1 and push[0].n < nxt[0].n and contains_name(('x',) + tuple(push[0].args), 'rocksdb::Iterator::value'), s, 'lists every item', f['file'], p)
            bound = [hi for hi in (add(lo, cnt),) + tuple(ends) + tuple(v for l in F.all() for v in subterms(l) if is_call(v, 'quarkdb::binaryStringToUnsignedInt')) if push and push[0].facts.entails(lt(c, hi))]
            cx.ob(bool(bound), s, 'lists only items in front of its cursor', f['file'], p)
            cx.ob(any(F.entails(le(hi, v)) for hi in bound for v in ends), s, 'lists only items that are there', f['file'], p)
            # the cursor: where the previous call ended, or the end of the deque
            if F.entails(eq(size(cur), ZERO)):
                cx.ob(any(v in ends for v in bound) or not first and any(F.entails(eq(add(lo, cnt), v)) for v in ends), s, 'starts at the back', f['file'], p)
            else:
                mk = ('call', 'quarkdb::binaryStringToUnsignedInt', ('call', 'data', cur))
                ok = lambda v: any(is_call(t, 'quarkdb::binaryStringToUnsignedInt') and contains_term(t, cur) for t in subterms(v)) or v in ends and any(is_call(t, 'quarkdb::binaryStringToUnsignedInt') and F.entails(gt(t, v)) for l in F.all() for t in subterms(l))
                cx.ob(any(ok(v) for v in bound), s, 'goes on where the previous scan ended', f['file'], p)
    cx.ob(all(n.values()), s, 'lists')


@rule('C17', 'journal', 'a scan of the journal lists every entry from its cursor on')
def c17_journal(cx):
    f = cx.fn('quarkdb::RaftJournal::scanContents')
    s = 'scanContents'
    IT = ('~RaftJournal::Iterator::', '~getIterator$', '~RaftEntry::deserialize$', '~stringmatchlen$')
    n = 0
    start, cnt, match = P(f, 0), P(f, 1), P(f, 2)
    OUT, NX = ('var', f['params'][3]['id'], 0), ('var', f['params'][4]['id'], 0)
    for p in cx.paths(f, opaque=IT[:2] + ('~RaftEntry::deserialize$',), pure=('~stringmatchlen$',)):
        if p.outcome != 'return':
            continue
        g = p.calls('~getIterator$')
        cx.ob(len(g) == 1 and g[0].args[0] == start, s, 'starts at its cursor', f['file'], p)
        for x in p.events:
            if x.kind == 'loop' and x.info == 'iterend':
                n += 1
                nx = [e for e in p.calls('~Iterator::next$') if x.val[1] in e.loops]
                pu = [e for e in p.events if e.kind == 'call' and e.objloc == OUT and x.val[1] in e.loops]
                cx.ob(len(nx) == 1 and all(e.n < nx[0].n for e in pu), s, 'one step per entry', f['file'], p)
                mm = [v for l in x.facts.all() for v in subterms(l) if is_call(v, '~stringmatchlen$')]
                cx.ob(len(pu) == 1 or not pu and any(x.facts.entails(ne(v, C(1))) or x.facts.entails(eq(v, ZERO)) for v in mm) and x.facts.entails(ne(size(match), ZERO)), s, 'lists every entry that matches', f['file'], p)
                st = next((a for v, a, b in x.args if b == add(a, C(1))), None)
                cx.ob(st is not None and x.facts.entails(lt(st, cnt)), s, 'no more than asked for', f['file'], p)
        va = p.calls('~Iterator::valid$')
        w = [e for e in p.events if e.kind == 'write' and e.loc == NX]
        cx.ob(bool(w) and bool(va), s, 'answers a cursor', f['file'], p)
        if w and va:
            v = result(va[-1])
            if p.facts.entails(eq(v, ZERO)):
                cx.ob(w[-1].val == ZERO, s, 'past the last entry it is over', f['file'], p)
            else:
                cx.ob(p.facts.entails(ne(v, ZERO)) and w[-1].val in rets(p, 'Iterator::getCurrentIndex'), s, 'the cursor is the first entry not looked at', f['file'], p)
    cx.ob(n > 0, s, 'lists')


@rule('C17', 'replies', 'the cursor of a reply can be given back')
def c17_replies(cx):
    fs = [f for f in cx.p.fns('quarkdb::RedisDispatcher::dispatchRead')]
    cx.need(fs, 'RedisDispatcher::dispatchRead')
    f = fs[0]
    n = 0
    seen = set()
    from rules.r_dispatch import cmd_is
    for p in cx.paths(f, opaque=('~StateMachine::', '~parseScanCommand$', '~Formatter::', '~Dispatcher::', '~KeyDescriptor')):
        sc = p.calls('~StateMachine::(scan|hscan|sscan|lhscan|dequeScanBack)$')
        ps = p.calls('~parseScanCommand$')
        for e in sc:
            a = [x for x in ps if x.n < e.n]
            cx.ob(len(a) == 1, 'dispatchRead', 'a scan has arguments', e.where(), p)
            if not a:
                continue
            args = result(a[-1])
            seen.add(e.name.split('::')[-1])
            cx.ob(e.facts.entails(eq(size(Engine.project(args, SA + 'error')), ZERO)), 'dispatchRead', 'malformed arguments are refused before anything is read', e.where(), p)
            cx.ob(Engine.project(args, SA + 'cursor') in e.args and Engine.project(args, SA + 'count') in e.args, 'dispatchRead', 'scans with the given cursor and count', e.where(), p)
            fm = p.calls('~Formatter::scan$')
            st = result(e)
            if fm:
                n += 1
                i = len(e.args) - 2
                nc, vec = outv(e, i), outv(e, i + 1)
                nc = next((t for t in [outv(e, i), outv(e, i + 1)] if contains_term(fm[0].args[0], t) or p.facts.entails(eq(size(t), ZERO)) or p.facts.entails(eq(t, ('s', '')))), NOTHING)
                cx.ob(isok(p.facts, st), 'dispatchRead', 'answers only what was read', e.where(), p)
                over = p.facts.entails(eq(nc, ('s', ''))) or p.facts.entails(eq(size(nc), ZERO))
                cx.ob(fm[0].args[0] == (('s', '0') if over else ('cat', (('s', 'next:'), nc))), 'dispatchRead', 'the cursor is 0 when over, else what to go on with', e.where(), p)
                cx.ob(contains_any(fm[0].args[1], [outv(e, k) for k in range(len(e.args) + 2)]), 'dispatchRead', 'answers the elements', e.where(), p)
    cx.ob(n > 0 and {'scan', 'hscan', 'sscan', 'lhscan', 'dequeScanBack'} <= seen, 'dispatchRead', 'answers all scans')
    f = cx.fn('quarkdb::Formatter::journalScan')
    for p in cx.paths(f):
        t = flat(Engine.project(p.val, 'quarkdb::RedisEncodedResponse::val')) if p.val else ()
        r = repr(p.val) + repr([x.args for x in p.events if x.kind == 'loop' and x.info == 'begin'])
        z = p.facts.entails(eq(P(f, 0), ZERO))
        nz = p.facts.entails(ne(P(f, 0), ZERO))
        cx.ob(z and 'next:' not in r or nz and 'next:' in r and repr(('call', 'std::to_string', P(f, 0))) in r, 'Formatter::journalScan', 'the cursor is 0 when over, else what to go on with', f['file'], p)
