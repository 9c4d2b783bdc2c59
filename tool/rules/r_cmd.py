"""Configuration, authentication, the command table: C01, C02, C03, C04."""
import re
from qdb.common import *
from rules.r_store import contains_term, contains_any, contains_name, flat
from rules.r_dispatch import fld, emp, rets, anyof, cmd_is, arg, nargs

CF = 'quarkdb::Configuration::'
AU = 'quarkdb::Authenticator::'
AD = 'quarkdb::AuthenticationDispatcher::'
RC = 'quarkdb::RedisCommand::'
CT = 'quarkdb::CommandType::'
N = 'quarkdb::QuarkDBNode::'
MODES = {'standalone': 'standalone', 'raft': 'raft', 'bulkload': 'bulkload'}
TRACE = {'off': 'off', 'error': 'error', 'warn': 'warning', 'warning': 'warning', 'info': 'info', 'debug': 'debug', 'all': 'debug'}
OPTS = {'mode': ('mode', MODES, 'quarkdb::Mode::'), 'database': ('database', None, None), 'myself': ('myself', 'server', None), 'trace': ('trace', TRACE, 'quarkdb::TraceLevel::'),
        'certificate': ('certificatePath', None, None), 'certificate_key': ('certificateKeyPath', None, None), 'write_ahead_log': ('writeAheadLog', 'bool', None),
        'password_file': ('passwordFilePath', None, None), 'password': ('password', None, None), 'require_password_for_localhost': ('requirePasswordForLocalhost', 'bool', None)}


def THIS(f, name):
    return this(name)


def nonempty(v):
    return ne(size(v), ZERO)


# ---------------------------------------------------------------- C03
@rule('C03', 'options', 'each option sets its own setting, and nothing else is accepted')
def c03_options(cx):
    f = cx.fn(CF + 'fromReader')
    s = 'Configuration::fromReader'
    seen = {}
    flds = {x['n'].split('::')[-1] for x in cx.p.rec['quarkdb::Configuration']['fields']}
    cx.ob({o[0] for o in OPTS.values()} <= flds, 'Configuration', 'has all settings')
    for p in cx.paths(f, opaque=('~ConfigurationReader::',), pure=('~parseServer$', '~StringUtils::startsWith$')):
        begs = [x for x in p.events if x.kind == 'loop' and x.info == 'begin']
        val = [e for e in p.calls(CF + 'isValid')]
        if p.outcome != 'return':
            cx.ob(False, s, 'ends with an answer', f['file'], p)
            continue
        done = [x for x in p.events if x.kind == 'loop' and x.info in ('exit', 'zero')]
        true = not p.facts.entails(eq(p.val, ZERO)) and p.val != ZERO
        if true:
            cx.ob(bool(done), s, 'accepts only what was read to its end', f['file'], p)
        if not begs:
            continue
        L = begs[0].val[1]
        ws = [e for e in p.events if e.kind in ('write', 'call') and L in e.loops]
        words = [e for e in p.calls('~ConfigurationReader::getCurrentWord$') if L in e.loops]
        end = [x for x in p.events if x.kind == 'loop' and x.info == 'iterend' and x.val[1] == L]
        if not words:
            cx.ob(False, s, 'looks at the option', f['file'], p)
            continue
        w1 = result(words[0])
        G = (end[0] if end else p).facts
        opt = None
        for o in OPTS:
            for l in G.all():
                if l[0] == 'eq' and any(t == ('s', o) for t, k in l[1] if t != ('s', o) or True) and contains_term(l, w1) or l[0] == 'eq' and contains_term(l, w1) and contains_term(l, ('s', 'redis.' + o)):
                    opt = o if any(v == ('s', o) or v == ('s', 'redis.' + o) for v in subterms(l)) else opt
        if not end:
            continue
        sets = [e for e in p.events if L in e.loops and e.kind == 'write' and any(x.startswith(CF) for x in loc_fields(e.loc))]
        adv = [e for e in p.calls('~ConfigurationReader::advanceLine$') if L in e.loops]
        cx.ob(len(adv) == 1, s, 'one line per option', f['file'], p)
        mine = any(is_call(v, '~startsWith$') and v[2] == w1 and v[3] == ('s', 'redis.') and G.entails(ne(v, ZERO)) for l in G.all() for v in subterms(l))
        other = any(is_call(v, '~startsWith$') and v[2] == w1 and v[3] == ('s', 'redis.') and G.entails(eq(v, ZERO)) for l in G.all() for v in subterms(l))
        if other:
            cx.ob(not sets, s, 'lines of others are left alone', f['file'], p)
            continue
        cx.ob(mine, s, 'handles exactly the options starting with redis.', f['file'], p)
        cx.ob(opt is not None, s, 'an unknown option is refused', f['file'], p)
        if opt is None:
            continue
        fl, kind, pre = OPTS[opt]
        # the name is compared without its 6 first characters
        tails = [v for l in G.all() if l[0] == 'eq' and contains_term(l, ('s', opt)) for v, k in l[1] if v != ('s', opt)]
        cx.ob(any(t in (('ctor', 'std::string', (add(('call', 'begin', w1), C(6)), ('call', 'end', w1))),) or is_call(t, 'substr') and t[2] == w1 and t[3] == C(6) for t in tails) or contains_term(tuple(G.all()), ('s', 'redis.' + opt)), s, 'compares the whole name', f['file'], p)
        which = {[x for x in loc_fields(e.loc) if x.startswith(CF)][0][len(CF):] for e in sets}
        cx.ob(which == {fl}, s, '%s sets exactly its own setting' % opt, f['file'], p)
        if which != {fl} or len(words) < 2:
            cx.ob(len(words) == 2, s, 'takes the value from the file', f['file'], p)
            continue
        w2 = result(words[1])
        mid = [e for e in p.calls('~ConfigurationReader::advanceWord$') if words[0].n < e.n < words[1].n]
        cx.ob(len(mid) == 1 and len(words) == 2, s, 'the value is the word after the option', f['file'], p)
        cx.ob(G.entails(nonempty(w2)), s, 'an option needs a value', f['file'], p)
        v = sets[-1].val
        good = False
        if kind is None:
            good = v == w2
        elif kind == 'bool':
            good = v == C(1) and G.entails(eq(w2, ('s', 'true'))) or v == ZERO and G.entails(eq(w2, ('s', 'false')))
            seen.setdefault(opt, set()).add(v)
        elif kind == 'server':
            good = is_call(v, '~parseServer#1$') and v[2] == w2 and G.entails(ne(('call', 'quarkdb::parseServer', w2), ZERO))
        else:
            good = any(v == ('e', pre + e) and G.entails(eq(w2, ('s', t))) for t, e in kind.items())
            seen.setdefault(opt, set()).update(t for t in kind if G.entails(eq(w2, ('s', t))))
        cx.ob(good, s, '%s is set to the given value' % opt, f['file'], p)
        seen.setdefault(opt, set())
    for o, (fl, kind, pre) in OPTS.items():
        cx.ob(o in seen, s, 'honours ' + o)
        if isinstance(kind, dict) and o in seen:
            cx.ob(seen[o] == set(kind), s, 'understands every value of ' + o)
        if kind == 'bool' and o in seen:
            cx.ob(len(seen[o]) == 2, s, 'understands every value of ' + o)
    # the answer is that of the consistency check
    n = 0
    for p in cx.paths(f, opaque=('~ConfigurationReader::', '~Configuration::isValid$'), pure=('~parseServer$', '~StringUtils::startsWith$')):
        if p.outcome == 'return' and any(x.kind == 'loop' and x.info in ('exit', 'zero') for x in p.events):
            v = p.calls('~Configuration::isValid$')
            n += 1
            cx.ob(len(v) == 1 and v[0].objloc == ('var', f['params'][1]['id'], 0), s, 'a configuration that was read is checked', f['file'], p)
            if v:
                cx.ob(p.val == result(v[0]) or p.facts.eqv(p.val, result(v[0])) or p.facts.entails(ne(result(v[0]), ZERO)) and p.facts.entails(ne(p.val, ZERO)) or p.facts.entails(eq(result(v[0]), ZERO)) and p.facts.entails(eq(p.val, ZERO)), s, 'and accepted only if consistent', f['file'], p)
    cx.ob(n > 0, s, 'checks what it read')
    for g in ('fromString', 'fromFile'):
        f = cx.fn(CF + g)
        for p in cx.paths(f, opaque=('~Configuration::from(Reader|String)$', '~readFile$')):
            if p.outcome != 'return':
                continue
            r = p.calls('~Configuration::from(Reader|String)$')
            if r:
                cx.ob(len(r) == 1 and p.val == result(r[0]), g, 'answers what reading it answers', f['file'], p)
                rd = p.calls('~readFile$')
                if g == 'fromFile':
                    cx.ob(len(rd) == 1 and p.facts.entails(ne(result(rd[0]), ZERO)) and r[0].args[0] == outv(rd[0], 1), g, 'parses the contents of the file', f['file'], p)
            else:
                cx.ob(p.facts.entails(eq(p.val, ZERO)) or p.val == ZERO, g, 'an unreadable file is refused', f['file'], p)


@rule('C03', 'valid', 'inconsistent configurations are refused')
def c03_valid(cx):
    f = cx.fn(CF + 'isValid')
    T = lambda x: THIS(f, CF + x)
    db, host = T('database'), Engine.project(THIS(f, CF + "myself"), 'quarkdb::RaftServer::hostname')
    raft = eq(T('mode'), ('e', 'quarkdb::Mode::raft'))
    em = lambda v: eq(size(v), ZERO)
    iff = lambda a, b: OR(AND(a, b), AND(tneg(a), tneg(b)))
    last = ('call', '[]', db, sub(size(db), C(1)))
    exact(cx, 'Configuration::isValid', cx.paths(f), [
        ('there is a database path', nonempty(db)),
        ('raft settings are given exactly in raft mode', iff(raft, nonempty(host))),
        ('the path has no trailing slash', ne(last, C(ord('/')))),
        ('certificate and key come together', iff(em(T('certificatePath')), em(T('certificateKeyPath')))),
        ('there is at most one password source', OR(em(T('passwordFilePath')), em(T('password')))),
        ('a password required from local clients exists', OR(eq(T('requirePasswordForLocalhost'), ZERO), nonempty(T('password')), nonempty(T('passwordFilePath'))))], f['file'])
    # accessors
    for m, fl in (('getMode', 'mode'), ('getDatabase', 'database'), ('getTraceLevel', 'trace'), ('getCertificatePath', 'certificatePath'), ('getCertificateKeyPath', 'certificateKeyPath'),
                  ('getPasswordFilePath', 'passwordFilePath'), ('getPassword', 'password'), ('getMyself', 'myself'), ('getWriteAheadLog', 'writeAheadLog'), ('getRequirePasswordForLocalhost', 'requirePasswordForLocalhost')):
        g = cx.fn(CF + m)
        for p in cx.paths(g):
            cx.ob(p.val == THIS(g, CF + fl), m, 'gives its own setting', g['file'], p)
    g = cx.fn(CF + 'extractPasswordOrDie')
    T = lambda x: THIS(g, CF + x)
    n = 0
    for p in cx.paths(g, opaque=('~readPasswordFile$',)):
        r = p.calls('~readPasswordFile$')
        if p.outcome == 'throw':
            cx.ob(r and p.facts.entails(eq(result(r[0]), ZERO)) or p.facts.entails(nonempty(T('password'))) and p.facts.entails(nonempty(T('passwordFilePath'))), 'extractPasswordOrDie', 'dies only without the password', g['file'], p)
            continue
        n += 1
        if r:
            cx.ob(r[0].args[0] == T('passwordFilePath') and p.facts.entails(ne(result(r[0]), ZERO)) and p.val == outv(r[0], 1), 'extractPasswordOrDie', 'the password is what the password file contains', g['file'], p)
        else:
            cx.ob(p.val == T('password') and (p.facts.entails(nonempty(T('password')))) or p.val == ('s', '') and p.facts.entails(eq(size(T('passwordFilePath')), ZERO)) and p.facts.entails(eq(size(T('password')), ZERO)) or p.val == T('password') and p.facts.entails(eq(size(T('passwordFilePath')), ZERO)), 'extractPasswordOrDie', 'the password is the one configured', g['file'], p)
    cx.ob(n > 1, 'extractPasswordOrDie', 'has a password')
    g = cx.fn('quarkdb::modeToString')
    enum_strings(cx, 'quarkdb::modeToString', 'quarkdb::Mode', {'standalone': 'STANDALONE', 'raft': 'RAFT', 'bulkload': 'BULKLOAD'}, 'modeToString')


@rule('C03', 'words', 'the file is read word by word and line by line, without going past its end')
def c03_words(cx):
    R = 'quarkdb::ConfigurationReader::'
    body, pos = this(R + 'mContents'), this(R + 'mPosition')
    at = lambda i: ('call', '[]', body, i)

    def space(p, F, i, yes):
        for e in p.calls('isspace', 'std::isspace'):
            if e.args[0] == at(i) and F.entails(ne(result(e), ZERO) if yes else eq(result(e), ZERO)):
                return True
        return False
    for m, skip in (('findNextWhitespace', False), ('findNextNonWhitespace', True)):
        f = cx.fn(R + m)
        n = 0
        for p in cx.paths(f):
            for x in p.events:
                if x.kind == 'loop' and x.info == 'begin':
                    cx.ob(any(a == pos for v, a, b in x.args), m, 'starts where it is', f['file'], p)
                if x.kind == 'loop' and x.info == 'iterend':
                    n += 1
                    st = next((a for v, a, b in x.args if b == add(a, C(1))), None)
                    cx.ob(st is not None and space(p, x.facts, st, skip) and x.facts.entails(lt(st, size(body))), m, 'passes only over %s' % ('space' if skip else 'a word'), f['file'], p)
            if p.outcome == 'return':
                cx.ob(p.facts.entails(ge(p.val, size(body))) or space(p, p.facts, p.val, not skip), m, 'stops at the first %s' % ('word' if skip else 'space'), f['file'], p)
        cx.ob(n > 0, m, 'looks')
    f = cx.fn(R + 'getCurrentWord')
    for p in cx.paths(f):
        for x in p.events:
            if x.kind == 'loop' and x.info == 'iterend':
                st = next((a for v, a, b in x.args if a is not None and b == add(a, C(1))), None)
                cx.ob(st is not None and space(p, x.facts, st, False) and x.facts.entails(lt(st, size(body))), 'getCurrentWord', 'a word has no space', f['file'], p)
                cx.ob(st is not None and any(at(st) in subterms(b) for v, a, b in x.args if b is not None), 'getCurrentWord', 'contains each of its characters', f['file'], p)
    f = cx.fn(R + 'advanceWord')
    for p in cx.paths(f, opaque=('~ConfigurationReader::find',)):
        a, b = p.calls('~findNextWhitespace$'), p.calls('~findNextNonWhitespace$')
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == R + 'mPosition']
        cx.ob(len(a) == 1 and len(b) == 1 and a[0].n < b[0].n and len(w) >= 1 and w[-1].val == result(b[0]) and any(x.val == result(a[0]) and a[0].n < x.n < b[0].n for x in w), 'advanceWord', 'goes behind this word and to the next', f['file'], p)
    f = cx.fn(R + 'advanceLine')
    n = 0
    for p in cx.paths(f, opaque=('~ConfigurationReader::advanceWord',)):
        aw = p.calls('~advanceWord')
        w = [e for e in p.events if e.kind == 'write' and last_field(e.loc) == R + 'mPosition']
        for x in p.events:
            if x.kind == 'loop' and x.info == 'iterend':
                cx.ob(len(w) == 1 and x.facts.entails(ne(at(w[0].val), C(10))), 'advanceLine', 'passes over the rest of the line', f['file'], p)
            if x.kind == 'loop' and x.info == 'break':
                n += 1
                cx.ob(len(w) == 2 and x.facts.entails(eq(at(w[0].val), C(10))) and w[1].val == add(w[0].val, C(1)) and len(aw) == 1, 'advanceLine', 'stops at the first word behind the end of the line', f['file'], p)
    cx.ob(n > 0, 'advanceLine', 'finds the end of the line')
    f = cx.fn(R + 'eof')
    exact(cx, 'eof', cx.paths(f), [('all was read', ge(pos, size(body)))], f['file'])


# ---------------------------------------------------------------- C02
@rule('C02', 'challenge', 'a challenge is fresh, unpredictable and lives for a limited time')
def c02_challenge(cx):
    f = cx.fn(AU + 'generateChallenge', 3)
    s = 'generateChallenge'
    n = 0
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        n += 1
        F = p.facts
        cx.ob(F.entails(eq(size(P(f, 0)), C(64))) and F.entails(eq(size(P(f, 2)), C(64))), s, '64 random bytes from either side', f['file'], p)
        cx.ob(F.entails(ne(P(f, 0), P(f, 2))), s, 'the two sides are told apart', f['file'], p)
        ch = p.final(thisloc(AU + 'challengeString'))
        parts = flat(ch)
        cx.ob(parts.count(P(f, 0)) == 1 and parts.count(P(f, 2)) == 1 and any(contains_term(x, P(f, 1)) for x in parts), s, 'contains both random parts and the time', f['file'], p)
        cx.ob(p.val == ch, s, 'the challenge given out is the one remembered', f['file'], p)
        dl = p.final(thisloc(AU + 'challengeDeadline'))
        now = p.calls('std::chrono::steady_clock::now')
        d = sub(dl, result(now[0])) if len(now) == 1 else NOTHING
        cx.ob(d[0] == 'c' and 0 < d[1], s, 'expires some time after it was issued', f['file'], p)
    cx.ob(n > 0, s, 'issues challenges')
    f = cx.fn(AU + 'generateChallenge', 1)
    n = 0
    for p in cx.paths(f, opaque=('~generateSecureRandomBytes$', '~Authenticator::generateChallenge$')):
        for e in p.calls('~Authenticator::generateChallenge$'):
            n += 1
            r = p.calls('~generateSecureRandomBytes$')
            cx.ob(len(r) == 1 and r[0].args[0] == C(64) and e.args[2] == result(r[0]) and e.args[0] == P(f, 0), s, 'draws secure randomness each time', e.where(), p)
            cx.ob(contains_name(e.args[1], 'system_clock::now') or any(result(x) in subterms(e.args[1]) for x in p.calls('~clock::now$')), s, 'contains the current time', e.where(), p)
            cx.ob(p.val == result(e), s, 'gives out the challenge', e.where(), p)
    cx.ob(n > 0, s, 'issues challenges')
    # the source of randomness
    f = cx.fn('quarkdb::generateSecureRandomBytes')
    k = 0
    for p in cx.paths(f):
        if p.outcome == 'return':
            rd = p.calls('fread', 'std::fread', 'read')
            op = p.calls('fopen', 'std::fopen', 'open')
            rand = p.calls('RAND_bytes', 'getrandom', 'getentropy')
            k += 1
            cx.ob(len(op) == 1 and op[0].args[0] in (('s', '/dev/urandom'), ('s', '/dev/random')) and len(rd) == 1 or bool(rand), 'generateSecureRandomBytes', 'uses a secure source', f['file'], p)
            for e in rd:
                cx.ob(p.facts.entails(eq(result(e), P(f, 0))) and P(f, 0) in e.args and (e.name == 'read' or e.args[1:3] == (C(1), P(f, 0)) and e.facts.entails(ne(result(op[0]), ZERO))), 'generateSecureRandomBytes', 'all bytes are random', e.where(), p)
                cx.ob(p.val[0] == 'ctor' and e.args[0] in p.val[2] or contains_term(p.val, e.args[0]) or contains_term(p.val, outv(e, 0)), 'generateSecureRandomBytes', 'gives the bytes it read', e.where(), p)
            cx.ob(p.facts.entails(eq(size(p.val), P(f, 0))) or p.val[0] == 'ctor' and P(f, 0) in p.val[2], 'generateSecureRandomBytes', 'as many as asked for', f['file'], p)
    cx.ob(k > 0, 'generateSecureRandomBytes', 'gives bytes')


@rule('C02', 'answer', 'an answer counts once, in time, and only with the right digest')
def c02_answer(cx):
    f = cx.fn(AU + 'validateSignature')
    s = 'validateSignature'
    sig = ('call', AU + 'generateSignature', this(AU + 'challengeString'), this(AU + 'secretKey'))
    E = lambda x: ('e', AU + 'ValidationStatus::' + x)
    dl = this(AU + 'challengeDeadline')
    seen = set()
    for p in cx.paths(f, pure=('~generateSignature$',)):
        if p.outcome != 'return':
            cx.ob(False, s, 'answers', f['file'], p)
            continue
        F = p.facts
        now = p.calls('std::chrono::steady_clock::now')
        cx.ob(len(now) >= 1, s, 'looks at the clock', f['file'], p)
        if not now:
            continue
        nv = result(now[0])
        end = p.final(thisloc(AU + 'challengeDeadline'))
        cx.ob(end != dl and not contains_any(end, [result(x) for x in now]), s, 'a challenge is over once it was answered', f['file'], p)
        late = F.entails(lt(dl, nv))
        for nm in ('kOk', 'kInvalidSignature', 'kDeadlinePassed'):
            if p.val == E(nm):
                seen.add(nm)
        if p.val == E('kOk'):
            cx.ob(F.entails(ge(dl, nv)) or F.entails(gt(dl, nv)), s, 'accepts only in time', f['file'], p)
            cx.ob(F.entails(eq(P(f, 0), sig)), s, 'accepts only the digest of the challenge under the secret', f['file'], p)
        elif p.val == E('kInvalidSignature'):
            cx.ob(F.entails(ne(P(f, 0), sig)), s, 'refuses only wrong digests', f['file'], p)
        elif p.val == E('kDeadlinePassed'):
            cx.ob(late or F.entails(le(dl, nv)), s, 'late only after the deadline', f['file'], p)
        else:
            cx.ob(False, s, 'answers one of three', f['file'], p)
    cx.ob(len(seen) == 3, s, 'tells all answers apart')
    f = cx.fn(AU + 'resetDeadline')
    for p in cx.paths(f):
        v = p.final(thisloc(AU + 'challengeDeadline'))
        cx.ob(v != dl and 'now' not in repr(v), 'resetDeadline', 'nothing is in time after it', f['file'], p)
    # which fields change where
    for fl, ok_ in (('challengeString', {'generateChallenge'}), ('secretKey', {'Authenticator'}), ('challengeDeadline', {'generateChallenge', 'resetDeadline', 'validateSignature'})):
        for g in writers(cx, AU + fl):
            cx.ob(g['name'].startswith(AU) and g['name'].split('::')[-1] in ok_, short(g['name']), fl + ' changes only with a new challenge', g['file'])


@rule('C02', 'digest', 'the digest is the keyed hash of the whole challenge')
def c02_digest(cx):
    f = cx.fn(AU + 'generateSignature')
    s = 'generateSignature'
    n = 0
    for p in cx.paths(f):
        if p.outcome != 'return':
            continue
        h = p.calls('HMAC')
        n += 1
        cx.ob(len(h) == 1, s, 'hashes once', f['file'], p)
        for e in h:
            a = e.args
            cx.ob(a[1] == ('call', 'data', P(f, 1)) and a[2] == size(P(f, 1)), s, 'keyed by the whole secret', e.where(), p)
            cx.ob(a[3] == ('call', 'data', P(f, 0)) and a[4] == size(P(f, 0)), s, 'over the whole challenge', e.where(), p)
            cx.ob(any(is_call(x, 'EVP_sha256') or x in [result(y) for y in p.calls('EVP_sha256')] for x in [a[0]]), s, 'with SHA-256', e.where(), p)
            out = a[5]
            cx.ob(is_call(out, 'data') and out[2] in subterms(p.val), s, 'the digest is the answer', e.where(), p)
            cx.ob(p.facts.entails(eq(size(p.val), C(32))) or any(t[0] == 'mut' and t[1].endswith('resize') and C(32) in t[3] for t in subterms(p.val)), s, 'all 32 bytes of it', e.where(), p)
    cx.ob(n > 0, s, 'hashes')
    for cls, prm in ((AU + 'Authenticator', 0), (AD + 'AuthenticationDispatcher', 0)):
        f = cx.fn(cls)
        for p in cx.paths(f):
            z = size(P(f, prm))
            if p.outcome == 'return':
                cx.ob(p.facts.entails(eq(z, ZERO)) or p.facts.entails(ge(z, C(32))), short(cls), 'a short secret is refused', f['file'], p)
                fl = [x for x in ('secretKey', 'secret') if p.final(thisloc(cls.rsplit('::', 1)[0] + '::' + x)) not in (None, this(cls.rsplit('::', 1)[0] + '::' + x))]
                cx.ob(any(contains_term(p.final(thisloc(cls.rsplit('::', 1)[0] + '::' + x)), P(f, prm)) for x in fl), short(cls), 'keeps the secret', f['file'], p)
            elif p.outcome == 'throw':
                cx.ob(p.facts.entails(lt(z, C(32))) and p.facts.entails(ne(z, ZERO)), short(cls), 'refuses only short secrets', f['file'], p)


@rule('C02', 'commands', 'authentication commands authorise only on success')
def c02_commands(cx):
    f = cx.fn(AD + 'dispatch', pred=lambda f: len(f['params']) == 3)
    s = 'AuthenticationDispatcher::dispatch'
    req = P(f, 0)
    AUTH = ('var', f['params'][1]['id'], 0)
    AUTHN = ('var', f['params'][2]['id'], 0)
    sec = this(AD + 'secret')
    empty = eq(size(sec), ZERO)
    n = {}
    for p in cx.paths(f, opaque=('~Authenticator::', '~Formatter::', '~toPrintableString$')):
        F = p.facts
        a = p.final(AUTH)
        gen, val, new = p.calls('~Authenticator::generateChallenge$'), p.calls('~Authenticator::validateSignature$'), [e for e in p.events if e.kind == 'new' or e.kind == 'call' and e.name == AU + 'Authenticator']
        if p.outcome != 'return':
            continue
        yes = possible(F, ne(a, ZERO), tneg(empty))
        okc = p.calls('~Formatter::ok$')
        if yes:
            good = cmd_is(F, req, 'AUTH') and F.entails(eq(sec, arg(req, 1))) and F.entails(tneg(empty)) and F.entails(eq(nargs(req), C(2))) or \
                (cmd_is(F, req, 'HMAC_AUTH_VALIDATE_CHALLENGE') and len(val) == 1 and F.entails(eq(result(val[0]), ('e', AU + 'ValidationStatus::kOk'))))
            cx.ob(good, s, 'authorises only with the secret or without one', f['file'], p)
            n['yes'] = n.get('yes', 0) + 1
        if okc:
            n['ok'] = n.get('ok', 0) + 1
            cx.ob(a == C(1) or F.entails(ne(a, ZERO)), s, 'OK means authorised', f['file'], p)
        for e in val:
            n['val'] = n.get('val', 0) + 1
            cx.ob(F.entails(eq(nargs(req), C(2))) and e.args[0] == arg(req, 1), s, 'checks the answer that was given', e.where(), p)
            cx.ob(e.facts.entails(tneg(empty)), s, 'no challenge without a secret', e.where(), p)
            cx.ob(e.facts.entails(ne(P(f, 2), ZERO)), s, 'an answer needs a challenge', e.where(), p)
            fin = p.final(AUTHN)
            cx.ob(fin != P(f, 2) and (fin in (ZERO, ('null',), ('c', 0)) or p.facts.entails(eq(fin, ZERO)) or 'reset' in repr(fin)), s, 'one answer per challenge', e.where(), p)
        for e in gen:
            n['gen'] = n.get('gen', 0) + 1
            cx.ob(e.args[0] == arg(req, 1) and F.entails(eq(size(arg(req, 1)), C(64))) and F.entails(eq(nargs(req), C(2))), s, 'challenges carry the random bytes of the client', e.where(), p)
            cx.ob(e.facts.entails(tneg(empty)), s, 'no challenge without a secret', e.where(), p)
            ctor = [x for x in p.events if x.kind == 'call' and x.name == AU + 'Authenticator' or x.kind == 'new']
            cx.ob(bool(ctor) and all(x.n < e.n for x in ctor), s, 'each challenge starts afresh', e.where(), p)
            cc = [x for x in p.events if x.kind == 'call' and x.name.endswith('Authenticator::Authenticator')]
            cx.ob(any(x.args and contains_term(x.args[0], sec) for x in cc), s, 'under the configured secret', e.where(), p)
        if cmd_is(F, req, 'AUTH'):
            n['auth'] = n.get('auth', 0) + 1
    cx.ob(n.get('yes', 0) >= 2 and n.get('gen') and n.get('val') and n.get('auth'), s, 'handles every authentication command')


# ---------------------------------------------------------------- C01
QUIET = r'~(RedisRequest::(size|operator|getCommand|getCommandType|begin|end)|^std::|basic_|ostream|stringstream|Logger|getTrace|tracelevel|toPrintableString|escapeNonPrintable|quotes)'


def authenticated(cx, conn, F):
    """literals one of which must hold before anything but authentication happens"""
    CN = 'quarkdb::Connection::'
    return F.entails(eq(size(this(N + 'password')), ZERO)) or F.entails(ne(fld(conn, CN + 'authorization'), ZERO)) or \
        F.entails(ne(fld(conn, CN + 'localhost'), ZERO)) and F.entails(eq(Engine.project(this(N + 'configuration'), CF + 'requirePasswordForLocalhost'), ZERO))


@rule('C01', 'gate', 'nothing but authentication is reachable before it succeeded')
def c01_gate(cx):
    OPQ = ('~Shard::', '~Connection::(raw|noauth|err|errArgs|ok|string|status|statusVector|integer|vector|pong|setName|activatePushTypes)$', '~Formatter::', '~AuthenticationDispatcher::', '~ShardDirectory::', '~Dispatcher::handle',
           '~QuarkDBNode::info$', '~toPrintableString$', '~StringUtils::', '~caseInsensitiveEquals')
    for f in [g for g in cx.p.fns(N + 'dispatch')]:
        tx = 'Transaction' in f['params'][1]['t']
        s = 'QuarkDBNode::dispatch ' + ('Transaction' if tx else 'RedisRequest')
        conn, req = P(f, 0), P(f, 1)
        seen = set()
        for p in cx.paths(f, opaque=OPQ):
            ct = Engine.project(req, 'quarkdb::RedisRequest::commandType')
            AUT = eq(ct, ('e', CT + 'AUTHENTICATION'))
            noauth = p.calls('~Formatter::noauth$', '~Connection::noauth$')
            for e in p.calls('~.'):
                nm = e.name
                if re.search(QUIET[1:], nm) or re.search('Formatter::|StringUtils::|caseInsensitiveEquals|expectedResponses|operator|describe$|getID$', nm):
                    continue
                if not re.search('quarkdb|^system$|^kill$', nm):
                    continue
                if nm.endswith('AuthenticationDispatcher::dispatch'):
                    seen.add('auth')
                    cx.ob(e.facts.entails(AUT), s, 'only authentication commands authenticate', e.where(), p)
                    continue
                if not match(nm, OPQ) and any(x.get('body') for x in cx.p.fns(nm)):
                    continue  # its own statements are on the path
                if authenticated(cx, conn, e.facts):
                    seen.add('in')
                    continue
                if re.search('Connection::(raw|noauth)$', nm):
                    seen.add('refused')
                    cx.ob(len(noauth) == 1 and (nm.endswith('noauth') or contains_term(e.args[0], result(noauth[0])) or
                          any(contains_term(e.args[0], result(m)) and m.args[0] == result(noauth[0]) for m in p.calls('~Formatter::multiply$'))), s, 'the only answer before is the refusal', e.where(), p)
                    if tx:
                        m = p.calls('~Formatter::multiply$')
                        ph, rq = ne(Engine.project(req, 'quarkdb::Transaction::phantom'), ZERO), size(Engine.project(req, 'quarkdb::Transaction::requests'))
                        cx.ob(len(m) == 1 and (m[0].facts.eqv(m[0].args[1], rq) and m[0].facts.entails(ph) or m[0].args[1] == C(1) and m[0].facts.entails(tneg(ph))), s, 'one refusal for each awaited reply', e.where(), p)
                    continue
                cx.ob(False, s, 'nothing happens before authentication (%s)' % short(nm), e.where(), p)
            if p.outcome == 'return' and not tx and p.facts.entails(AUT):
                cx.ob(len([e for e in p.calls('~AuthenticationDispatcher::dispatch$')]) == 1, s, 'authentication commands are always served', f['file'], p)
            if noauth:
                cx.ob(not authenticated(cx, conn, p.facts), s, 'an authenticated client is not refused', f['file'], p)
        cx.ob(seen >= ({'in', 'refused'} if tx else {'in', 'refused', 'auth'}), s, 'refuses, authenticates and serves')


@rule('C01', 'state', 'only authentication sets the authorised state')
def c01_state(cx):
    CN = 'quarkdb::Connection::'
    f = cx.fn(N + 'isAuthenticated')
    conn = P(f, 0)
    loc = ('f', ('d', conn), CN + 'authorization')
    pw, lh, rq, au = eq(size(this(N + 'password')), ZERO), ne(fld(conn, CN + 'localhost'), ZERO), ne(Engine.project(this(N + 'configuration'), CF + 'requirePasswordForLocalhost'), ZERO), ne(fld(conn, CN + 'authorization'), ZERO)
    ps = list(cx.paths(f))
    n = 0
    for p, r, F in bool_cases(ps):
        n += 1
        if r:
            cx.ob(authenticated(cx, conn, F), 'isAuthenticated', 'admits only with a reason', f['file'], p)
        else:
            cx.ob(not possible(F, pw) and not possible(F, au) and not possible(F, lh, tneg(rq)), 'isAuthenticated', 'refuses only without a reason', f['file'], p)
        for e in p.events:
            if e.kind == 'write' and e.loc == loc:
                cx.ob(authenticated(cx, conn, e.facts) and e.val == C(1) or e.val == ZERO, 'isAuthenticated', 'remembers only what holds', e.where(), p)
    cx.ob(n > 1, 'isAuthenticated', 'decides')
    for g in writers(cx, CN + 'authorization'):
        cx.ob(g['name'] in (N + 'isAuthenticated', CN + 'Connection', AD + 'dispatch'), short(g['name']), 'does not set the authorised state', g['file'])
    for g in writers(cx, CN + 'localhost'):
        cx.ob(g['name'] == CN + 'Connection', short(g['name']), 'does not change where a connection comes from', g['file'])
    for g in writers(cx, N + 'password'):
        cx.ob(g['name'] == N + 'QuarkDBNode', short(g['name']), 'does not change the password', g['file'])
    # who gets the state by reference
    for g in cx.p.fn.values():
        if not g.get('body') or g['name'].startswith(CN):
            continue
        for c in walk(g['body']):
            if c.get('k') in ('call', 'ctor') and any(isinstance(a, dict) and a.get('k') == 'mem' and a.get('f') == CN + 'authorization' for a in c.get('a', c.get('args', []))):
                nm = c.get('f', '')
                cx.ob(nm.endswith('AuthenticationDispatcher::dispatch') or nm.endswith('RedisParser::fetch'), short(g['name']), 'hands the authorised state only to authentication', g['file'])
    f = cx.fn(CN + 'Connection')
    k = 0
    for p in cx.paths(f, opaque=('~Link::', '~BufferedWriter', '~BufferedReader', '~PendingQueue')):
        if p.outcome != 'return':
            continue
        k += 1
        cx.ob(p.final(thisloc(CN + 'authorization')) == ZERO, 'Connection', 'starts unauthorised', f['file'], p)
        v = p.final(thisloc(CN + 'localhost'))
        cx.ob(any(v == result(e) for e in p.calls('~Link::isLocalhost$')) or is_call(v, 'quarkdb::Link::isLocalhost'), 'Connection', 'knows where it comes from', f['file'], p)
    cx.ob(k > 0, 'Connection', 'is set up')
    f = cx.fn(N + 'QuarkDBNode')
    k = 0
    for p in cx.paths(f, opaque=('~Configuration::extractPasswordOrDie$', '~AuthenticationDispatcher::', '~Shard', '~RaftTimeouts')):
        if p.outcome != 'return':
            continue
        k += 1
        x = p.calls('~extractPasswordOrDie$')
        d = p.calls('~AuthenticationDispatcher::AuthenticationDispatcher$')
        cx.ob(bool(x) and p.final(thisloc(N + 'password')) == result(x[0]) and len(d) == 1 and d[0].args[0] == result(x[0]), 'QuarkDBNode', 'asks for the configured password', f['file'], p)
    cx.ob(k > 0, 'QuarkDBNode', 'is set up')


@rule('C01', 'local', 'only genuine local peers are local')
def c01_local(cx):
    f = cx.fn('quarkdb::Link::isLocalhost')
    names = {'localhost', 'localhost.localdomain', 'localhost6', 'localhost6.localdomain6', '127.0.0.1', '::1', '[::1]', '[::127.0.0.1]', '[::ffff:127.0.0.1]', '::ffff:127.0.0.1'}
    h = this('quarkdb::Link::host')
    n = 0
    for p, r, F in bool_cases(cx.paths(f)):
        if r:
            n += 1
            hit = [v[1] for l in F.all() if l[0] == 'eq' and contains_term(l, h) for v in subterms(l) if len(v) == 2 and v[0] == 's']
            cx.ob(bool(hit) and set(hit) <= names, 'Link::isLocalhost', 'only names of this host', f['file'], p)
    cx.ob(n > 0, 'Link::isLocalhost', 'knows local peers')
    for g in writers(cx, 'quarkdb::Link::host'):
        cx.ob(g['name'] in ('quarkdb::Link::Link', 'quarkdb::Link::<ctor>') or not callers(cx, g['name']), short(g['name']), 'does not change the peer', g['file'])


# ---------------------------------------------------------------- C04
ALIAS = {'multiop_read': 'TX_READONLY', 'multiop_readwrite': 'TX_READWRITE', 'raft_checkpoint': 'QUARKDB_CHECKPOINT'}
INTERNAL = ('TX_READONLY', 'TX_READWRITE')
RRQ = 'quarkdb::RedisRequest::'


def command_table(cx):
    """{name: (command, class)} as the initialiser of the program leaves it, and how often each name is set"""
    out, times = {}, {}
    k = 0
    for f in cx.p.fn.values():
        if not f.get('body') or not any(x.get('n') == 'quarkdb::redis_cmd_map' for x in walk(f['body'])):
            continue
        if f['name'] in (RRQ + 'parseCommand',):
            continue
        k += 1
        for p in cx.paths(f):
            for e in p.events:
                if e.kind == 'write' and e.loc and e.loc[0] == 'ix' and e.loc[1] == ('g', 'quarkdb::redis_cmd_map') and e.loc[2][0] == 's':
                    es = [v[1] for v in subterms(e.val) if len(v) == 2 and v[0] == 'e']
                    c = [x[len(RC):] for x in es if x.startswith(RC)]
                    t = [x[len(CT):] for x in es if x.startswith(CT)]
                    if len(c) == 1 and len(t) == 1:
                        out[e.loc[2][1]] = (c[0], t[0])
                        times[e.loc[2][1]] = times.get(e.loc[2][1], 0) + 1
                    else:
                        cx.ob(False, short(f['name']), 'sets one command and one class for ' + e.loc[2][1], e.where(), p)
            break
    return out, times


def enumerators(cx, prefix):
    return {n[len(prefix):] for n in cx.p.enumval if n.startswith(prefix)}


@rule('C04', 'table', 'every command has one name of its own and one class')
def c04_table(cx):
    tab, times = command_table(cx)
    cx.need(len(tab) > 100, 'the command table')
    norm = {}
    for n, (c, t) in tab.items():
        cx.ob(times[n] == 1, 'redis_cmd_map', '%s is listed once' % n)
        key = n.lower().replace('-', '_')
        cx.ob(norm.setdefault(key, n) == n, 'redis_cmd_map', '%s is not listed under another spelling' % n)
        cx.ob(c == ALIAS.get(key, key.upper()), 'redis_cmd_map', '%s stands for the command of that name' % n)
        cx.ob(c != 'INVALID' and t != 'INVALID', 'redis_cmd_map', '%s is a valid command' % n)
    cls = {}
    for n, (c, t) in tab.items():
        cls.setdefault(c, set()).add(t)
    for c in sorted(enumerators(cx, RC) - {'INVALID'}):
        cx.ob(c in cls, 'redis_cmd_map', '%s can be issued' % c)
        cx.ob(len(cls.get(c, ())) == 1, 'redis_cmd_map', '%s has one class' % c)
    for c, t in sorted((c, list(t)[0]) for c, t in cls.items()):
        for pre, want in (('RAFT_', 'RAFT'), ('RECOVERY_', 'RECOVERY'), ('QUARKDB_', 'QUARKDB')):
            if c.startswith(pre):
                cx.ob(t == want, 'redis_cmd_map', '%s is of class %s' % (c, want))
        cx.ob((t == 'RAFT') == (c.startswith('RAFT_') or c == 'ACTIVATE_STALE_READS'), 'redis_cmd_map', '%s: raft class only for raft commands' % c)
        cx.ob((t == 'RECOVERY') == c.startswith('RECOVERY_'), 'redis_cmd_map', '%s: recovery class only for recovery commands' % c)


@rule('C04', 'lookup', 'names are looked up without regard to case, - and _ alike, and unknown ones are invalid')
def c04_lookup(cx):
    f = cx.fn('quarkdb::CommandComparator::normalize')
    low = ('call', 'tolower', P(f, 0))
    for p in returns(cx.paths(f, pure=('~^(std::)?tolower$',))):
        v = p.val
        F = p.facts
        if F.entails(eq(low, C(45))) or F.entails(eq(P(f, 0), C(45))):
            cx.ob(v == C(95), 'CommandComparator', '- stands for _', f['file'], p)
        else:
            cx.ob(F.eqv(v, low) and not possible(F, eq(low, C(45))), 'CommandComparator', 'letters in either case are the same', f['file'], p)
    f = cx.fn('quarkdb::CommandComparator::operator()')
    a, b = P(f, 0), P(f, 1)
    nz = lambda v: ('call', 'quarkdb::CommandComparator::normalize', ('init', ('d', ('this',))), v)
    n = [0, 0]
    for p, r, F in bool_cases(cx.paths(f, pure=('~CommandComparator::normalize$',))):
        loops = [e for e in p.events if e.kind == 'loop' and e.info == 'begin']
        brk = [e for e in p.events if e.kind == 'loop' and e.info in ('exit', 'zero')]
        if not brk:  # decided by a character
            i = [c for e in loops for v, ent, c in e.args if is_zero(ent)]
            cx.ob(len(i) >= 1, 'CommandComparator', 'compares character by character', f['file'], p)
            if i:
                n[0] += 1
                x, y = nz(Engine.index(a, i[0])), nz(Engine.index(b, i[0]))
                cx.ob(F.entails(lt(x, y)) if r else F.entails(gt(x, y)), 'CommandComparator', 'the first difference decides', f['file'], p)
        else:
            n[1] += 1
            cx.ob(F.entails(lt(size(a), size(b))) if r else F.entails(ge(size(a), size(b))), 'CommandComparator', 'a shorter name comes first', f['file'], p)
        for e in p.events:
            if e.kind == 'loop' and e.info == 'iterend':
                i = [(c, d) for v, c, d in e.args if stepped(c, d)]
                cx.ob(bool(i) and e.facts.entails(eq(nz(Engine.index(a, i[0][0])), nz(Engine.index(b, i[0][0])))), 'CommandComparator', 'goes on only while equal', e.where(), p)
                cx.ob(bool(i) and e.facts.entails(lt(i[0][0], size(a))) and e.facts.entails(lt(i[0][0], size(b))), 'CommandComparator', 'stays inside both names', e.where(), p)
            if e.kind == 'loop' and e.info == 'exit':
                cx.ob(any(e.facts.entails(ge(d, size(a))) or e.facts.entails(ge(d, size(b))) for v, c, d in e.args), 'CommandComparator', 'compares to the end of one name', e.where(), p)
            if e.kind == 'loop' and e.info == 'zero':
                cx.ob(e.facts.entails(le(size(a), ZERO)) or e.facts.entails(le(size(b), ZERO)), 'CommandComparator', 'compares to the end of one name', e.where(), p)
    cx.ob(all(n), 'CommandComparator', 'orders names')
    f = cx.fn(RRQ + 'parseCommand')
    cont = this(RRQ + 'contents')
    it = ('call', 'find', ('gv', 'quarkdb::redis_cmd_map'), Engine.index(cont, ZERO))
    end = ('call', 'end', ('gv', 'quarkdb::redis_cmd_map'))
    k = 0
    for p in cx.paths(f):
        cx.ob(p.outcome == 'return', 'parseCommand', 'never fails', f['file'], p)
        c, t = p.final(thisloc(RRQ + 'command')), p.final(thisloc(RRQ + 'commandType'))
        inv = c == ('e', RC + 'INVALID') and t == ('e', CT + 'INVALID')
        if inv:
            cx.ob(p.facts.entails(eq(size(cont), ZERO)) or p.facts.entails(eq(it, end)), 'parseCommand', 'only unknown names are invalid', f['file'], p)
        else:
            k += 1
            ent = ('f', ('d', it), 'std::pair::second')
            cx.ob(p.facts.entails(ne(it, end)) and p.facts.entails(ne(size(cont), ZERO)), 'parseCommand', 'known names only', f['file'], p)
            cx.ob(c == ('init', ('f', ent, 'std::pair::first')) and t == ('init', ('f', ent, 'std::pair::second')), 'parseCommand', 'command and class as listed', f['file'], p)
    cx.ob(k > 0, 'parseCommand', 'knows commands')
    f = cx.fn('quarkdb::caseInsensitiveEquals')
    a, b = P(f, 0), P(f, 1)
    tl = lambda v: ('call', 'tolower', v)
    for p, r, F in bool_cases(cx.paths(f, pure=('~^(std::)?tolower$',))):
        its = [e for e in p.events if e.kind == 'loop' and e.info == 'iterend']
        if r:
            cx.ob(F.entails(eq(size(a), size(b))), 'caseInsensitiveEquals', 'equal texts have equal length', f['file'], p)
            for e in its:
                i = [(c, d) for v, c, d in e.args if stepped(c, d)]
                cx.ob(bool(i) and lasting(e, F).entails(eq(tl(Engine.index(a, i[0][0])), tl(Engine.index(b, i[0][0])))), 'caseInsensitiveEquals', 'equal in every character', e.where(), p)
            fin = [e for e in p.events if e.kind == 'loop' and e.info in ('exit', 'zero')]
            cx.ob(bool(fin) and all(e.facts.entails(le(size(a), ZERO)) or any(e.facts.entails(ge(d, size(a))) and is_zero(c0) for v, c0, d in e.args for _ in [0]) or any(e.facts.entails(ge(d, size(a))) for v, c0, d in e.args) for e in fin), 'caseInsensitiveEquals', 'all characters are compared', f['file'], p)
        else:
            i = [c for e in p.events if e.kind == 'loop' and e.info == 'begin' for v, ent, c in e.args]
            cx.ob(F.entails(ne(size(a), size(b))) or any(F.entails(ne(tl(Engine.index(a, x)), tl(Engine.index(b, x)))) for x in i), 'caseInsensitiveEquals', 'different only if some character is', f['file'], p)


@rule('C04', 'request', 'the class of a request always belongs to its first word')
def c04_request(cx):
    """the first word can change only in functions that classify the request again, or forget its class"""
    for name in ('command', 'commandType'):
        for g in writers(cx, RRQ + name):
            cx.ob(g['name'] in (RRQ + 'parseCommand', RRQ + 'invalidate', RRQ + 'RedisRequest', RRQ + 'clear') or g['name'].startswith(RRQ + 'operator='), short(g['name']), 'does not set the class of a request', g['file'])
    for f in cx.p.methods('quarkdb::RedisRequest'):
        if not f.get('body') or f['name'].endswith('::parseCommand') or f['name'].endswith('::resize') or f['name'].endswith('getPinnedBuffer') or f['key'].endswith('const'):
            continue
        for p in cx.paths(f, opaque=('~parseCommand$',)):
            if p.outcome != 'return':
                continue
            w = p.final(thisloc(RRQ + 'contents'))
            pc = p.calls(RRQ + 'parseCommand')
            if w == this(RRQ + 'contents') or w is None or short(f['name']).endswith('reserve'):
                continue
            if w[0] == 'mut' and w[1].endswith('reserve'):
                continue
            inval = p.final(thisloc(RRQ + 'command')) == ('e', RC + 'INVALID') and p.final(thisloc(RRQ + 'commandType')) == ('e', CT + 'INVALID') and not pc
            cleared = w == ('ctor', 'std::vector', ()) or is_call(w, 'clear') or w[0] == 'mut' and w[1].endswith('clear') or p.facts.entails(eq(size(w), ZERO))
            more = w[0] == 'mut' and w[1].endswith('_back') and p.facts.entails(ne(size(w[2]), ZERO))
            cx.ob(bool(pc) or inval and cleared or more and not cleared or inval and p.facts.entails(eq(size(w), ZERO)), short(f['name']), 'is classified when it gets its first word', f['file'], p)
            if pc and w[0] == 'mut' and w[1].endswith('_back'):
                last = [e for e in p.events if e.kind == 'call' and e.name.endswith('_back')]
                cx.ob(not last or pc[-1].n > last[0].n, short(f['name']), 'is classified after it got its first word', f['file'], p)
    # the parser refills requests in place: it must classify again
    for g in cx.p.fn.values():
        if not g.get('body') or g['name'].startswith(RRQ):
            continue
        touched = [c for c in walk(g['body']) if c.get('k') == 'call' and c.get('f') in (RRQ + 'getPinnedBuffer', RRQ + 'resize')]
        if touched and not only_for(cx, g, 'quarkdb::LeaseFilter::'):  # C08
            cx.ob(g['name'] == 'quarkdb::RedisParser::fetch' or g['name'].startswith('quarkdb::RedisParser::'), short(g['name']), 'does not rewrite the words of a request', g['file'])


def only_for(cx, g, prefix, depth=0):
    """g is one of those functions, or a helper called only by them"""
    if g['name'].startswith(prefix):
        return True
    cs = [h for h, _ in callers(cx, g['name'])]
    return bool(cs) and depth < 6 and all(only_for(cx, h, prefix, depth + 1) for h in cs)


HANDLERS = [('quarkdb::RedisDispatcher::dispatchRead', 'READ', 1), ('quarkdb::RedisDispatcher::dispatchWrite', 'WRITE', 1)]


def served(cx, f, i):
    """{command: [paths]} of a handler; paths without a known command under None"""
    out = {}
    c = Engine.project(P(f, i), RRQ + 'command')
    for p in cx.paths(f, opaque=('~StateMachine::', '~Formatter::', '~RedisDispatcher::', '~VersionedHash', '~ParseUtils', '~parseScanCommand', '~StringUtils', '~Transaction::', '~quotes', '~caseIns', '~Publisher::', '~RaftDispatcher::', '~Connection::', '~Shard', '~RecoveryEditor::', '~Authenticator::', '~RaftJournal::', '~RaftState::', '~Raft', '~QuarkDBNode::info$', '~Dispatcher::handle', '~InFlight', '~CommandMonitor', '~Resilvering')):
        k = [v[1][len(RC):] for l in p.facts.all() if l[0] in ('eq', 'or') and contains_term(l, c) for v in subterms(l) if len(v) == 2 and v[0] == 'e' and v[1].startswith(RC)]
        one = [x for x in k if p.facts.entails(eq(c, ('e', RC + x)))]
        for x in one[:1] or [x for x in k if possible(p.facts, eq(c, ('e', RC + x)))] or [None]:
            out.setdefault(x, []).append(p)
    return out


@rule('C04', 'served', 'each command is served by the handler of its class, and by no other')
def c04_served(cx):
    tab, _ = command_table(cx)
    cls = {c: t for c, t in tab.values()}
    rewritten = {'LEASE_ACQUIRE', 'LEASE_GET', 'LEASE_RELEASE'}
    byclass = {}
    for c, t in cls.items():
        byclass.setdefault(t, set()).add(c)
    R = 'quarkdb::RedisDispatcher::'
    hs = [(cx.fn(R + 'dispatchRead'), 1, 'READ'), (cx.fn(R + 'dispatchWrite'), 1, 'WRITE'), (cx.fn('quarkdb::Publisher::dispatch', pred=lambda f: 'RedisRequest' in f['params'][1]['t']), 1, 'PUBSUB'),
          (cx.fn(AD + 'dispatch', pred=lambda f: len(f['params']) == 3), 0, 'AUTHENTICATION'), (cx.fn('quarkdb::RecoveryDispatcher::dispatch', pred=lambda f: len(f['params']) == 1), 0, 'RECOVERY')]
    for f, i, t in hs:
        s = short(f['name'])
        m = served(cx, f, i)
        got = {c for c in m if c and not all(q.outcome != 'return' or q.calls('~dispatchingError$') for q in m[c])}
        want = byclass.get(t, set()) - rewritten
        for c in sorted(want):
            cx.ob(c in got, s, 'serves %s' % c, f['file'])
        for c in sorted(got):
            cx.ob(cls.get(c) == t or t == 'RECOVERY' and cls.get(c) == 'CONTROL', s, 'serves only commands of its class (%s)' % c, f['file'])
    f = cx.fn('quarkdb::RaftDispatcher::dispatch', pred=lambda f: 'RedisRequest' in f['params'][1]['t'])
    got = {c for c in served(cx, f, 1) if c}
    for c in sorted(byclass.get('RAFT', ())):
        cx.ob(c in got, 'RaftDispatcher::dispatch', 'serves %s' % c, f['file'])
    # which handler a request reaches follows its class
    f = cx.fn(R + 'dispatchReadWrite')
    ct = Engine.project(P(f, 1), RRQ + 'commandType')
    n = set()
    for p in cx.paths(f, opaque=('~RedisDispatcher::',)):
        for e in p.calls('~dispatchWrite$'):
            n.add('w')
            cx.ob(e.facts.entails(eq(ct, ('e', CT + 'WRITE'))) and e.args[1] == P(f, 1), 'dispatchReadWrite', 'writes go to the write handler', e.where(), p)
        for e in p.calls('~dispatchRead$'):
            n.add('r')
            cx.ob(e.facts.entails(ne(ct, ('e', CT + 'WRITE'))) and e.args[1] == P(f, 1), 'dispatchReadWrite', 'others go to the read handler', e.where(), p)
    cx.ob(n == {'w', 'r'}, 'dispatchReadWrite', 'serves reads and writes')
    f = cx.fn(R + 'dispatchWrite')
    for p in returns(cx.paths(f, opaque=('~StateMachine::', '~Formatter::', '~RedisDispatcher::', '~VersionedHash', '~ParseUtils', '~parseScanCommand', '~StringUtils', '~Transaction::', '~quotes', '~caseIns'))):
        cx.ob(p.facts.entails(eq(Engine.project(P(f, 1), RRQ + 'commandType'), ('e', CT + 'WRITE'))), 'dispatchWrite', 'takes only writes', f['file'], p)
        break


@rule('C04', 'words', 'a request holds exactly the words put into it')
def c04_words(cx):
    cont = this(RRQ + 'contents')
    L = thisloc(RRQ + 'contents')
    k = 0
    for nm, np in (('push_back', 1), ('emplace_back', 1), ('emplace_back', 2)):
        f = cx.fn(RRQ + nm, np)
        for p in cx.paths(f, opaque=('~parseCommand$',)):
            w = p.final(L)
            k += 1
            good = p.outcome == 'return' and w[0] == 'mut' and w[1].endswith('_back') and w[2] == cont and all(contains_term(('x',) + tuple(w[3]), P(f, i)) for i in range(np)) and len(w[3]) == 1
            cx.ob(good, 'RedisRequest::' + nm, 'adds the word it is given', f['file'], p)
    f = cx.fn(RRQ + 'clear')
    for p in cx.paths(f):
        cx.ob(p.facts.entails(eq(size(p.final(L)), ZERO)) or p.final(L) == ('ctor', 'std::vector', ()), 'RedisRequest::clear', 'removes all words', f['file'], p)
    f = cx.fn(RRQ + 'resize')
    for p in cx.paths(f):
        w = p.final(L)
        cx.ob(w[0] == 'mut' and w[1].endswith('resize') and w[3][0] == P(f, 0), 'RedisRequest::resize', 'makes room for the given number of words', f['file'], p)
    f = cx.fn(RRQ + 'size')
    for p in cx.paths(f):
        cx.ob(p.val == size(cont), 'RedisRequest::size', 'counts the words', f['file'], p)
    f = cx.fn(RRQ + 'operator[]')
    for p in cx.paths(f):
        cx.ob(contains_term(p.val, Engine.index(cont, P(f, 0))), 'RedisRequest::operator[]', 'gives the word asked for', f['file'], p)
    for nm, same in (('operator==', True), ('operator!=', False)):
        f = cx.fn(RRQ + nm)
        rhs = Engine.project(P(f, 0), RRQ + 'contents')
        for p, r, F in bool_cases(cx.paths(f)):
            cx.ob(F.entails(eq(cont, rhs)) if r == same else F.entails(ne(cont, rhs)), 'RedisRequest::' + nm, 'compares all words', f['file'], p)
    for nm in ('begin', 'end'):
        f = cx.fn(RRQ + nm)
        for p in cx.paths(f):
            cx.ob(p.val == ('call', nm, cont) or p.val == ('call', 'c' + nm, cont), 'RedisRequest::' + nm, 'covers all words', f['file'], p)
    f = cx.fn(RRQ + '<ctor>', 1, lambda f: 'initializer_list' in f['key']) if cx.p.fns(RRQ + '<ctor>') else cx.fn(RRQ + 'RedisRequest', 1, lambda f: 'initializer_list' in f['key'])
    n = 0
    for p in cx.paths(f, opaque=('~parseCommand$',)):
        for e in p.events:
            if e.kind == 'call' and e.name.endswith('_back'):
                n += 1
                cx.ob(bool(e.loops) and visits(p, e.loops, e.args[0], lambda c: c == P(f, 0)), 'RedisRequest', 'takes every word of the list', e.where(), p)
    cx.ob(n > 0, 'RedisRequest', 'takes words')
