"""Path-sensitive interprocedural dataflow over the resolved syntax trees.

Every path through a function is summarised as an ordered list of events (calls, writes, lock
operations, returns, throws) over symbolic values, with the branch facts known at each event.
Helpers of the repository are inlined, so it does not matter where a statement lives. A loop
is summarised as 'no iteration' and 'one arbitrary iteration' with everything it may change
forgotten before and after it. Branch facts are difference bounds and (dis)equalities; a path
whose facts contradict each other is dropped. Nothing is executed and no solver is used."""
import re
from .facts import AnalysisBroken, walk, base_type, LOCK_TYPES, MUTEX_TYPES, _const_like, ptr_var
from .values import *


class Ev:
    __slots__ = ('kind', 'pure', 'name', 'key', 'obj', 'objloc', 'args', 'arglocs', 'ret', 'loc', 'val', 'old', 'line', 'file', 'fn',
                 'facts', 'locks', 'loops', 'inl', 'info', 'n', 'stack', 'node', 'depth', 'deep')

    def __init__(self, kind, **kw):
        for s in Ev.__slots__:
            setattr(self, s, None)
        self.kind = kind
        self.args = ()
        for k, v in kw.items():
            setattr(self, k, v)

    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, (self.fn or '').split('(')[0])

    def __repr__(self):
        if self.kind == 'call':
            s = '%scall %s%s(%s)' % ('>' if self.inl else '', show(self.obj) + '.' if self.obj is not None else '', self.name.replace('quarkdb::', ''), ', '.join(show(a) for a in self.args))
        elif self.kind == 'write':
            s = 'write %s := %s' % (show(self.loc), show(self.val))
        elif self.kind in ('acq', 'rel'):
            s = '%s %s %s' % (self.kind, show(self.loc), self.info)
        elif self.kind == 'branch':
            s = 'branch ' + show_lit(self.info)
        else:
            s = self.kind + ' ' + (self.name or '') + ' ' + (show(self.val) if self.val is not None else '') + (' ' + str(self.info) if self.info is not None and self.kind in ('loop', 'throw') else '')
        return '%s%s  [%s:%s]' % ('  ' * (self.depth or 0), s, self.file, self.line)


class State:
    __slots__ = ('mem', 'par', 'facts', 'ev', 'fver', 'locks', 'loops', 'released', 'frame', 'stack')

    def fork(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.par = self.par.copy()
        s.facts = self.facts
        s.ev = self.ev
        s.fver = self.fver
        s.locks = self.locks
        s.loops = self.loops
        s.released = self.released
        s.frame = self.frame
        s.stack = self.stack
        return s


class Frame:
    __slots__ = ('fn', 'no', 'this', 'parent', 'own', 'refret', 'key', 'file')

    def __init__(self, fn, no, this, parent=None, own=None, key=None, file=None, refret=False):
        self.fn = fn
        self.no = no
        self.this = this
        self.parent = parent
        self.own = own
        self.key = key
        self.file = file
        self.refret = refret


class Path:
    """one summarised path of an entry function"""

    def __init__(self, st, outcome, val, entry):
        self.st = st
        self.outcome = outcome
        self.val = val
        self.entry = entry
        evs = []
        c = st.ev
        while c is not None:
            evs.append(c[1])
            c = c[0]
        evs.reverse()
        self.events = evs
        self.facts = st.facts

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and match(e.name, names)]

    def writes(self, *fields):
        return [e for e in self.events if e.kind == 'write' and last_field(e.loc) in fields]

    def index(self, ev):
        for i, e in enumerate(self.events):
            if e is ev:
                return i
        raise ValueError

    def final(self, loc):
        return Engine.read_static(self.st, loc)

    def ret_cases(self):
        """[(bool or None, facts)]: a boolean result split by its truth"""
        if self.outcome != 'return' or self.val is None:
            return []
        t = truth(self.val)
        out = []
        for f in self.facts.with_(t):
            out.append((True, f))
        for f in self.facts.with_(tneg(t)):
            out.append((False, f))
        return out

    def describe(self, limit=60):
        out = []
        for e in self.events:
            if e.kind in ('call', 'write', 'branch', 'acq', 'rel', 'loop', 'throw', 'ret'):
                out.append(repr(e))
        if len(out) > limit:
            out = out[:limit // 2] + ['  ...'] + out[-limit // 2:]
        out.append('=> %s %s' % (self.outcome, show(self.val) if self.val is not None else ''))
        return '\n'.join(out)


def match(name, names):
    for n in names:
        if name == n:
            return True
        if n.startswith('~') and re.search(n[1:], name):
            return True
        if n.endswith('*') and name.startswith(n[:-1]):
            return True
    return False


def last_field(loc):
    """innermost-to-outermost: the outermost field that a location lies in"""
    if loc is None:
        return None
    if loc[0] == 'f':
        return loc[2]
    if loc[0] == 'ix':
        return last_field(loc[1])
    if loc[0] == 'g':
        return loc[1]
    return None


def loc_fields(loc):
    out = []
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'ix', 'd'):
        if loc[0] == 'f':
            out.append(loc[2])
            loc = loc[1]
        elif loc[0] == 'ix':
            loc = loc[1]
        else:
            v = loc[1]
            if isinstance(v, tuple) and v and v[0] == 'init':
                loc = v[1]
            else:
                break
    return out


def loc_root(loc):
    while loc[0] in ('f', 'ix'):
        loc = loc[1]
    return loc


class TooComplex(AnalysisBroken):
    pass


CMP = {'==', '!=', '<', '>', '<=', '>='}

PASS_THROUGH = {'std::move', 'std::forward', 'std::__addressof', 'std::as_const', 'std::ref', 'std::cref', '__builtin_expect', 'std::launder', 'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::move_if_noexcept'}

STREAMS = ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ostream', 'std::basic_iostream', 'std::ostringstream', 'std::stringstream', 'std::ostream')

STRINGY = ('std::basic_string', 'std::basic_string_view', 'rocksdb::Slice', 'std::string', 'std::string_view')

ITER_METHODS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'count', 'equal_range'}


# encoders and decoders with rules of their own: kept as functions of their arguments
PURE = ('__bswap_64', '__builtin_bswap64', 'htobe64', 'be64toh', '__uint64_identity', 'quarkdb::intToBinaryString', 'quarkdb::unsignedIntToBinaryString', 'quarkdb::binaryStringToInt', 'quarkdb::binaryStringToUnsignedInt',
        'quarkdb::boolToString', 'quarkdb::RaftServer::toString', 'quarkdb::ParseUtils::parseInt64', 'quarkdb::ParseUtils::parseInteger', 'quarkdb::fsyncPolicyToString',
        'quarkdb::ParseUtils::parseUInt64', 'quarkdb::parseServer', 'quarkdb::parseServers', 'quarkdb::serializeNodes', 'quarkdb::pathJoin', 'quarkdb::chopPath', 'quarkdb::RaftEntry::serialize', 'quarkdb::RaftEntry::deserialize', 'encodeEntryKey', 'parseEntryKey', 'quarkdb::encodeEntryKey', 'quarkdb::parseEntryKey', 'quarkdb::parseFsyncPolicy',
        'quarkdb::StaticBuffer::toView', 'quarkdb::describeRedisRequest', 'quarkdb::RaftServer::empty', 'quarkdb::RaftMembers::toString', 'quarkdb::quotes', 'quarkdb::caseInsensitiveEquals')


GLOBALS = {}        # constants with a literal value


def is_lenarg(n):
    k = n.get('key') or ''
    return 'char*' in k or 'char *' in k



def is_call2(v, name):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'call' and v[1] == name


class Engine:
    def __init__(self, prog, opaque=(), inline=None, maxdepth=9, maxpaths=6000, reads=False, small=120, pure=(), forget_on_lock=True, extra_inline=(), branches=False, nofork_try=False, steps=4000000, summarize=(), iter_facts=None, guards=None, volatile=()):
        self.p = prog
        self.volatile = tuple(volatile)
        self.guards = guards or {}
        if not ENUMS:
            for en in prog.enum.values():
                names = [v[0] for v in en['vals']]
                if len(set(v[1] for v in en['vals'])) == len(names):
                    for nm in names:
                        ENUMS[nm] = names
        if not GLOBALS:
            for g in prog.glob.values():
                e = g.get('e')
                if g['t'].startswith('const') and isinstance(e, dict) and e.get('k') in ('str', 'int'):
                    GLOBALS[g['name']] = ('s', e['v']) if e['k'] == 'str' else C(e['v'])
        self.opaque = tuple(opaque)
        self.inline_pred = inline
        self.maxdepth = maxdepth
        self.maxpaths = maxpaths
        self.reads = reads
        self.small = small
        self.pure = tuple(pure) + PURE
        self.forget_on_lock = forget_on_lock
        self.extra_inline = tuple(extra_inline)
        self.branches = branches
        self.count = 0
        self.ab = None
        self.steps = steps
        self.nsteps = 0
        self._mods = {}
        self._own = {}
        self.npaths = 0
        self.handles = []

    # ------------------------------------------------------------ memory
    def fresh(self):
        self.count += 1
        return self.count

    def resolve_var(self, st, vid, fr=None):
        fr = fr or st.frame
        if isinstance(vid, tuple):
            loc = self.resolve_var(st, vid[0], fr)
            for x in vid[1]:
                loc = ('f', loc, x)
            return loc
        while fr.own is not None and vid not in fr.own and fr.parent is not None:
            fr = fr.parent
        loc = ('var', vid, fr.no)
        r = st.mem.get(('ref', vid, fr.no))
        return r if r is not None else loc

    @staticmethod
    def project(v, f):
        k = v[0]
        if k == 'struct':
            for n, x in v[2]:
                if n == f:
                    return x
            return Engine.project(v[1], f)
        if k == 'init':
            return ('init', ('f', v[1], f))
        if k == 'ctor' and v[1] == 'std::pair' and len(v[2]) == 2:
            if f == 'std::pair::first':
                return v[2][0]
            if f == 'std::pair::second':
                return v[2][1]
        if k == 'agg':
            for n, x in v[2]:
                if n == f:
                    return x
        return ('.', v, f)

    @staticmethod
    def index(v, i):
        if v[0] == 'struct':
            for n, x in v[2]:
                if n == ('ix', i):
                    return x
            return Engine.index(v[1], i)
        if v[0] == 'list' and is_num(i) and 0 <= i[1] < len(v[1]):
            return v[1][i[1]]
        if v[0] == 'mut' and is_num(i) and len(v[3]) == 1 and v[1].rsplit('::', 1)[-1] in ('push_back', 'emplace_back'):
            els, b = [], v
            while b[0] == 'mut' and len(b[3]) == 1 and b[1].rsplit('::', 1)[-1] in ('push_back', 'emplace_back'):
                els.append(b[3][0])
                b = b[2]
            if b[0] in ('ctor', 'list') and not b[-1] and 0 <= i[1] < len(els):
                return els[len(els) - 1 - i[1]]
        if v[0] == 'init' and v[1][0] == 'd' and is_call2(v[1][1], 'data'):
            v = v[1][1][2]      # data()[i] is the i-th element
        if v[0] == 'ctor' and v[1] == 'std::string' and len(v[2]) == 2 and is_call2(v[2][0], 'data'):
            v = v[2][0][2]      # an element of a view of the first characters
        return ('call', '[]', v, i)

    @staticmethod
    def derive(st, loc):
        k = loc[0]
        if k == 'f':
            root = loc_root(loc)
            pl = loc[1]
            if loc[2] in st.fver and root[0] != 'var' and root[0] != 'tmp':
                w, q = None, pl
                while w is None and q[0] in ('f', 'ix'):
                    w = st.fver.get(('w', q))
                    q = q[1]
                if w is None or w < st.fver[loc[2]]:
                    return ('hav', st.fver[loc[2]], loc)
            pv = st.mem.get(pl)
            if pv is None:
                pv = Engine.derive(st, pl)
            return Engine.project(pv, loc[2])
        if k == 'ix':
            pl = loc[1]
            pv = st.mem.get(pl)
            if pv is None:
                pv = Engine.derive(st, pl)
            return Engine.index(pv, loc[2])
        if k == 'g':
            if loc[1] in st.fver:
                return ('hav', st.fver[loc[1]], loc)
            return GLOBALS.get(loc[1]) or ('gv', loc[1])
        if k == 'd':
            b = loc[1]
            if b[0] == 'litp' and b[1][1]:
                return b[1][1][0]
            if b[0] == 'lin' and len(b[2]) == 1 and b[2][0][0][0] == 'litp' and b[2][0][1] == 1:
                el = b[2][0][0][1][1]
                if 0 <= b[1] < len(el):
                    return el[b[1]]
            return ('init', loc)
        return ('undef', loc)

    @staticmethod
    def read_static(st, loc):
        v = st.mem.get(loc)
        if v is None:
            v = Engine.derive(st, loc)
        kids = st.par.get(loc)
        if kids:
            items = []
            for kl in kids:
                items.append((kl[2] if kl[0] == 'f' else ('ix', kl[2]), Engine.read_static(st, kl)))
            items.sort(key=repr)
            # drop a previous struct layer
            if v[0] == 'struct':
                d = dict((repr(a), (a, b)) for a, b in v[2])
                for a, b in items:
                    d[repr(a)] = (a, b)
                items = [d[x] for x in sorted(d)]
                v = v[1]
            return ('struct', v, tuple(items))
        return v

    def read(self, st, loc):
        return self.read_static(st, loc)

    def drop_kids(self, st, loc):
        kids = st.par.pop(loc, None)
        if kids:
            for k in kids:
                st.mem.pop(k, None)
                self.drop_kids(st, k)

    def set(self, st, loc, val):
        """raw store"""
        self.drop_kids(st, loc)
        st.mem[loc] = val
        if st.fver and loc[0] == 'f' and val[0] in ('ctor', 'struct', 'ret', 'out', 'call'):
            st.fver = dict(st.fver)
            st.fver[('w', loc)] = self.count
        l = loc
        while l[0] in ('f', 'ix'):
            p = l[1]
            ks = st.par.get(p)
            if ks is None:
                st.par[p] = (l,)
            elif l not in ks:
                st.par[p] = ks + (l,)
            else:
                break
            l = p

    def is_local(self, loc):
        r = loc_root(loc)
        if r[0] == 'tmp':
            return True
        if r[0] == 'var':
            return r not in self.ext
        if r[0] == 'd' and isinstance(r[1], tuple) and r[1] and r[1][0] == 'new':
            return False
        return False

    def write(self, st, loc, val, node, how='='):
        old = None
        if loc[0] == 'ix' and loc[1][0] != 'g':
            cv = st.mem.get(loc[1])
            if cv is not None and cv[:1] == ('mut',) and cv[1] in ('std::vector::emplace_back', 'std::vector::push_back') and loc[2] == self.sizeof(cv[2]):
                # the element just added is given its value
                loc, val = loc[1], ('mut', cv[1], cv[2], (val,))
        if not self.is_local(loc):
            old = self.read(st, loc)
            self.set(st, loc, val)
            self.event(st, 'write', node, loc=loc, val=val, old=old, info=how)
        else:
            self.set(st, loc, val)

    def event(self, st, kind, node=None, **kw):
        e = Ev(kind, **kw)
        e.line = node.get('l') if isinstance(node, dict) else None
        e.file = st.frame.file
        e.fn = st.frame.key
        e.facts = st.facts
        e.locks = st.locks
        e.loops = st.loops
        e.stack = st.stack
        e.node = node
        e.depth = len(st.stack)
        e.n = self.fresh()
        if kind == 'call' and e.args:
            # what pointer arguments point to, at this moment
            e.deep = tuple(self.read(st, v[1]) if isinstance(v, tuple) and v and v[0] == 'addr' else v for v in e.args)
        else:
            e.deep = e.args
        st.ev = (st.ev, e)
        return e

    # ------------------------------------------------------------ havoc
    def mods_of(self, node):
        k = id(node)
        m = self._mods.get(k)
        if m is None:
            vs, fs = self.p.direct_mods(node)
            for n in walk(node):
                if n.get('k') in ('call', 'ctor', 'fn') and n.get('key') in self.p.fn:
                    fs |= self.p.modset(n['key'])
                    if n.get('vm'):
                        for o in self.p.all_overriders(n['key']):
                            fs |= self.p.modset(o)
                elif n.get('vm') and 'key' in n:
                    for o in self.p.all_overriders(n['key']):
                        fs |= self.p.modset(o)
            m = (frozenset(vs), frozenset(fs))
            self._mods[k] = m
        return m

    def havoc(self, st, vs, fs, n):
        for v in sorted(vs, key=lambda v: isinstance(v, tuple)):
            path = ()
            if isinstance(v, tuple):
                v, path = v
                if v in vs:
                    continue
            loc = self.resolve_var(st, v)
            if loc[0] == 'var' and loc not in st.mem and loc not in st.par and loc not in self.ext:
                continue
            if loc[0] != 'var' and not path:
                r = loc_root(loc)
                if r[0] == 'var' and r[1] != v and r[1] in vs:
                    continue        # a reference into something that is forgotten as a whole
            for x in path:
                loc = ('f', loc, x)
            self.set(st, loc, ('hav', n, loc))
        self.havoc_fields(st, fs, n)

    def havoc_fields(self, st, fs, n):
        if not fs:
            return
        fs = set(fs)
        dead = []
        for loc in st.mem:
            if loc[0] in ('f', 'ix') and any(f in fs for f in loc_fields(loc)):
                dead.append(loc)
            elif loc[0] == 'g' and loc[1] in fs:
                dead.append(loc)
        st.fver = dict(st.fver)
        for f in fs:
            st.fver[f] = n
        for loc in dead:
            r = loc_root(loc)
            if r[0] in ('var', 'tmp') and r not in self.ext:
                # a local object: only forget it if it can be reached from outside; locals passed by
                # reference are handled through the call arguments
                continue
            st.mem.pop(loc, None)
            p = loc[1] if loc[0] != 'g' else None
            if p is not None and p in st.par:
                st.par[p] = tuple(x for x in st.par[p] if x != loc)
                if not st.par[p]:
                    st.par.pop(p)

    # ------------------------------------------------------------ running
    def run(self, fnrec, this=('d', ('this',)), setup=None, params=None):
        self.count = 0
        self.nsteps = 0
        self.entry = fnrec
        st = State()
        st.mem = {}
        st.par = {}
        st.facts = EMPTY
        st.ev = None
        st.fver = {}
        st.locks = ()
        st.loops = ()
        st.released = frozenset()
        st.stack = ()
        self.ext = set()
        fr = Frame(fnrec, 0, this, key=fnrec['key'], file=fnrec['file'], refret=fnrec['ret'].endswith('&'))
        st.frame = fr
        self.params = []
        for i, p in enumerate(fnrec['params']):
            v = ('p', p['n'] or 'arg%d' % i, i)
            if params and i in params:
                v = params[i]
            loc = ('var', p['id'], 0)
            self.set(st, loc, v)
            if p['t'].endswith('&') and not p['t'].startswith('const '):
                self.ext.add(loc)
            self.params.append(v)
        if setup:
            setup(self, st)
        res = []
        collector = []
        old = self.ab
        self.ab = collector
        starts = [st]
        if fnrec.get('ctor'):
            starts = self.run_inits(st, fnrec)
        outs = []
        for s in starts:
            outs += self.exec(s, fnrec['body'])
        self.ab = old
        paths = []
        for s, o in outs + collector:
            kind, val = 'return', None
            if o is None:
                pass
            elif o[0] == 'ret':
                val = o[1]
            elif o[0] == 'throw':
                kind, val = 'throw', ('s', o[1])
            elif o[0] in ('exit', 'loop'):
                kind = o[0]
            else:
                raise AnalysisBroken('unsupported jump %r in %s' % (o, fnrec['key']))
            paths.append(Path(s, kind, val, fnrec))
        self.npaths += len(paths)
        return paths

    def run_inits(self, st, fn):
        sts = [st]
        for i in fn.get('inits', ()):
            nxt = []
            for s in sts:
                if 'f' in i:
                    loc = ('f', s.frame.this, i['f'])
                    ft = self.p.fieldtype.get(i['f'], '')
                    for s2, v, l in self.init_into(s, i['e'], loc, ft):
                        nxt.append(s2)
                else:
                    for s2, v in self.eval(s, i['e'], this_target=s.frame.this):
                        nxt.append(s2)
            sts = nxt
        return sts

    def init_into(self, st, node, loc, typ):
        """initialise location loc of type typ from expression node"""
        out = []
        if typ.endswith('&') and self.is_lv(node):
            for s, l in self.lval(st, node):
                # reference member: remember as pointer-like alias
                self.set(s, loc, ('addr', l))
                out.append((s, ('addr', l), loc))
            return out
        for s, v in self.eval(st, node, this_target=loc):
            if v is not None and not (v[0] == 'inplace'):
                self.write(s, loc, v, node, 'init')
            out.append((s, v, loc))
        return out

    def tick(self):
        self.nsteps += 1
        if self.nsteps > self.steps:
            raise TooComplex('step bound exceeded in %s' % self.entry['key'])

    # ------------------------------------------------------------ statements
    def exec(self, st, n):
        """-> [(state, outcome)]"""
        self.tick()
        if n is None:
            return [(st, None)]
        return getattr(self, 's_' + n['k'])(st, n)

    def collect(self, fn):
        """run fn(), returning (results, abrupt outcomes raised inside expressions)"""
        old = self.ab
        self.ab = []
        try:
            r = fn()
            return r, self.ab
        finally:
            self.ab = old

    def s_null(self, st, n):
        return [(st, None)]

    def s_expr(self, st, n):
        m = n.get('m')
        if m in ('qdb_log', 'qdb_info', 'qdb_warn', 'qdb_error', 'qdb_debug', 'qdb_misconfig', 'qdb_critical', 'qdb_event', '___log'):
            self.event(st, 'log', n, name=m)
            return [(st, None)]
        r, ab = self.collect(lambda: self.eval(st, n['e']))
        return [(s, None) for s, v in r] + ab

    def scope(self, st, vars_, fn):
        """run fn(st) then destroy vars_ (list of (loc, type)) on every way out"""
        outs = fn(st)
        res = []
        for s, o in outs:
            cur = [s]
            for loc, t in reversed(vars_):
                nxt = []
                for c in cur:
                    nxt += self.destroy(c, loc, t)
                cur = nxt
            res += [(c, o) for c in cur]
        return res

    def destroy(self, st, loc, t):
        bt = base_type(t)
        if bt in LOCK_TYPES:
            held = [x for x in st.locks if x[2] == loc]
            for h in held:
                self.release(st, h[0], h[1], loc, None)
            return [st]
        if t.endswith('&') or t.endswith('*'):
            return [st]
        if bt.startswith('quarkdb::'):
            k = t.replace('const ', '') + '::<dtor>()'
            f = self.p.fn.get(k)
            if f is not None and f['body'].get('s') and len(st.stack) < self.maxdepth and not match(f['name'], self.opaque):
                out = []
                rr, ab = self.collect(lambda: self.inline(st, f, loc, [], {'l': f['line'], 'k': 'dtor'}, []))
                for s, v, l in rr:
                    out.append(s)
                return out
        return [st]

    def s_block(self, st, n):
        vars_ = []

        def body(st0):
            cur = [st0]
            done = []
            jumps = {}
            for s in n['s']:
                if s['k'] == 'label':
                    cur = cur + jumps.pop(s['n'], [])
                if not cur:
                    if jumps:
                        continue
                    break
                nxt = []
                for c in cur:
                    for s2, o in self.exec_decl(c, s, vars_) if s['k'] == 'decl' else self.exec(c, s):
                        if o is None:
                            nxt.append(s2)
                        elif o[0] == 'goto':
                            jumps.setdefault(o[1], []).append(s2)
                        else:
                            done.append((s2, o))
                cur = nxt
                if len(cur) + len(done) > self.maxpaths:
                    raise TooComplex('path bound exceeded in %s' % self.entry['key'])
            for l, ss in jumps.items():
                done += [(x, ('goto', l)) for x in ss]
            return [(c, None) for c in cur] + done
        return self.scope(st, vars_, body)

    def s_decl(self, st, n):
        return self.exec_decl(st, n, [])

    def exec_decl(self, st, n, vars_):
        cur = [st]
        done = []
        for d in n['d']:
            nxt = []
            for c in cur:
                r, ab = self.collect(lambda: self.declare(c, d, n))
                nxt += r
                done += ab
            cur = nxt
            loc = ('var', d['id'], st.frame.no)
            if not d['t'].endswith('&') and not d.get('static') and (loc, d['t']) not in vars_:
                vars_.append((loc, d['t']))
        return [(c, None) for c in cur] + done

    def declare(self, st, d, n):
        t = d['t']
        loc = ('var', d['id'], st.frame.no)
        bt = base_type(t)
        if d.get('static'):
            st.mem[('ref', d['id'], st.frame.no)] = ('g', d['gn'])
            return [st]
        if bt in LOCK_TYPES:
            return self.declare_lock(st, d, loc, bt)
        # a variable may be declared again in the next iteration: forget the old contents
        st.mem.pop(('ref', d['id'], st.frame.no), None)
        self.drop_kids(st, loc)
        st.mem.pop(loc, None)
        if 'e' not in d:
            self.set(st, loc, ('undef', loc))
            return [st]
        e = d['e']
        if t.endswith('&'):
            out = []
            if self.is_lv(e):
                for s, l in self.lval(st, e):
                    s.mem[('ref', d['id'], s.frame.no)] = l
                    self.bindings(s, d, l)
                    out.append(s)
            else:
                for s, v in self.eval(st, e, this_target=loc):
                    if v is not None and v[0] != 'inplace':
                        self.set(s, loc, v)
                    self.bindings(s, d, loc)
                    out.append(s)
            return out
        out = []
        for s, v in self.eval(st, e, this_target=loc):
            if v is not None and v[0] != 'inplace':
                self.set(s, loc, v)
            self.bindings(s, d, loc)
            out.append(s)
        return out

    def bindings(self, st, d, loc):
        if 'bind' in d:
            for i, b in enumerate(d['bind']):
                st.mem[('ref', b['id'], st.frame.no)] = ('f', loc, ('std::pair::first', 'std::pair::second')[i] if i < 2 else 'std::tuple::%d' % i)

    def declare_lock(self, st, d, loc, bt):
        e = d.get('e')
        args = e.get('a', []) if isinstance(e, dict) and e['k'] == 'ctor' else []
        if not args:
            self.set(st, loc, ('undef', loc))
            return [st]
        defer = any(isinstance(a, dict) and 'defer_lock' in str(a.get('n', '')) + str(a.get('c', '')) for a in args[1:])
        mode = 'r' if bt == 'std::shared_lock' else 'w'
        ms = args if bt == 'std::scoped_lock' else args[:1]
        cur = [st]
        for m in ms:
            nxt = []
            for c in cur:
                for s, l in self.lval(c, m):
                    s.mem[('lockof',) + loc] = (l, mode)
                    if not defer:
                        self.acquire(s, l, mode, loc, d)
                    nxt.append(s)
            cur = nxt
        for c in cur:
            c.mem[loc] = ('lock', loc)
        return cur

    def acquire(self, st, mloc, mode, owner, node):
        if mloc == ('g', 'quarkdb::logMutex'):
            return
        self.event(st, 'acq', node, loc=mloc, info=mode)
        if self.forget_on_lock and mloc in st.released:
            f = last_field(mloc)
            if f:
                cls = f.rsplit('::', 1)[0]
                fs = [x['n'] for r in self.p.recbyname.get(cls, ()) for x in r['fields'] if not x.get('imm')]
                heldf = {last_field(l[0]) for l in st.locks}
                fs = [x for x in fs if self.guards.get(x) not in heldf and self.guards.get(x) != '*']
                self.havoc_fields(st, fs, self.fresh())
        st.locks = st.locks + ((mloc, mode, owner),)

    def release(self, st, mloc, mode, owner, node):
        if mloc == ('g', 'quarkdb::logMutex'):
            return
        self.event(st, 'rel', node or {}, loc=mloc, info=mode)
        ls = list(st.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i][0] == mloc and (owner is None or ls[i][2] == owner):
                del ls[i]
                break
        st.locks = tuple(ls)
        st.released = st.released | {mloc}

    def branch(self, st, val, node):
        """-> (true states, false states)"""
        t = truth(val)
        ts, fs = [], []
        pos = st.facts.with_(t)
        nega = st.facts.with_(tneg(t))
        tot = len(pos) + len(nega)
        for f in pos:
            s = st.fork() if tot > 1 else st
            s.facts = f
            if self.branches and t not in (True, False):
                self.event(s, 'branch', node, info=t)
            ts.append(s)
        for f in nega:
            s = st.fork() if tot > 1 else st
            s.facts = f
            if self.branches and t not in (True, False):
                self.event(s, 'branch', node, info=tneg(t))
            fs.append(s)
        return ts, fs

    def s_if(self, st, n):
        if n.get('cx') and 'cv' in n:
            if n['cv']:
                return self.exec(st, n['t'])
            return self.exec(st, n.get('e'))
        vars_ = []

        def body(st0):
            cur = [(st0, None)]
            done = []
            if n.get('init'):
                cur = self.exec_decl(st0, n['init'], vars_) if n['init']['k'] == 'decl' else self.exec(st0, n['init'])
            if n.get('cvar'):
                nxt = []
                for c, o in cur:
                    if o is not None:
                        done.append((c, o))
                        continue
                    r, ab = self.collect(lambda: self.declare(c, n['cvar'], n))
                    nxt += [(x, None) for x in r]
                    done += ab
                cur = nxt
            out = []
            for c, o in cur:
                if o is not None:
                    out.append((c, o))
                    continue
                r, ab = self.collect(lambda: self.eval(c, n['c']))
                out += ab
                for s, v in r:
                    ts, fs = self.branch(s, v, n)
                    for x in ts:
                        out += self.exec(x, n['t'])
                    for x in fs:
                        out += self.exec(x, n.get('e'))
            return out + done
        return self.scope(st, vars_, body)

    def s_ret(self, st, n):
        if 'e' not in n:
            return [(st, ('ret', None, None))]
        if st.frame.refret and self.is_lv(n['e']):
            r, ab = self.collect(lambda: self.lval(st, n['e']))
            return [(s, ('ret', self.read(s, l), l)) for s, l in r] + ab
        r, ab = self.collect(lambda: self.eval(st, n['e']))
        return [(s, ('ret', v, None)) for s, v in r] + ab

    def s_break(self, st, n):
        return [(st, ('break',))]

    def s_continue(self, st, n):
        return [(st, ('continue',))]

    def s_label(self, st, n):
        return self.exec(st, n['s'])

    def s_goto(self, st, n):
        return [(st, ('goto', n['n']))]

    def s_xs(self, st, n):
        return [(st, None)]

    def s_case(self, st, n):
        return self.exec(st, n['s'])

    s_default = s_case

    def s_switch(self, st, n):
        vars_ = []
        cur = [st]
        pre = []
        if n.get('init'):
            pre += self.exec_decl(st, n['init'], vars_) if n['init']['k'] == 'decl' else self.exec(st, n['init'])
            cur = [s for s, o in pre if o is None]
        out = [(s, o) for s, o in pre if o is not None]
        if n.get('cvar'):
            nxt = []
            for c in cur:
                nxt += self.declare(c, n['cvar'], n)
            cur = nxt
        body = n['b']
        stmts = body['s'] if body['k'] == 'block' else [body]
        flat = []   # (labels, stmt)
        for s in stmts:
            labels = []
            while isinstance(s, dict) and s['k'] in ('case', 'default'):
                labels.append(s)
                s = s['s']
            b = s
            while isinstance(b, dict) and b.get('k') == 'block' and b['s'] and b['s'][0]['k'] in ('case', 'default', 'block'):
                # a label on the first statement of the block enters the block at its start
                b = b['s'][0]
                while b['k'] in ('case', 'default'):
                    labels.append(b)
                    b = b['s']
            flat.append((labels, s))
        for c in cur:
            r, ab = self.collect(lambda: self.eval(c, n['c']))
            out += ab
            for s, v in r:
                allc = []
                for labels, _ in flat:
                    for l in labels:
                        if l['k'] == 'case':
                            allc.append(self.const(l['v']))
                starts = []
                hasdef = None
                for i, (labels, _) in enumerate(flat):
                    for l in labels:
                        if l['k'] == 'default':
                            hasdef = i
                        else:
                            t = truth(('op', '==', v, self.const(l['v'])))
                            for f in s.facts.with_(t):
                                x = s.fork()
                                x.facts = f
                                starts.append((x, i))
                # default
                fs = [s.facts]
                for k in allc:
                    nf = []
                    for f in fs:
                        nf += f.with_(tneg(truth(('op', '==', v, k))))
                    fs = nf
                if n.get('all') and hasdef is None:
                    fs = []
                for f in fs:
                    x = s.fork()
                    x.facts = f
                    if hasdef is not None:
                        starts.append((x, hasdef))
                    else:
                        out.append((x, None))
                for x, i in starts:
                    if self.branches:
                        self.event(x, 'branch', n, info=('eq', ((v, 1),), 0))
                    seq = {'k': 'block', 's': [q for _, q in flat[i:]], 'l': n.get('l'), 'el': n.get('l')}
                    for y, o in self.s_block(x, seq):
                        if o == ('break',):
                            o = None
                        out.append((y, o))
        return out

    def const(self, n):
        r = self.eval(self.dummy(), n)
        return r[0][1]

    def dummy(self):
        st = State()
        st.mem = {}
        st.par = {}
        st.facts = EMPTY
        st.ev = None
        st.fver = {}
        st.locks = ()
        st.loops = ()
        st.released = frozenset()
        st.stack = ()
        st.frame = Frame(self.entry, -1, ('d', ('this',)), key='', file='')
        return st

    def s_throw(self, st, n):
        return self.exec(st, {'k': 'expr', 'e': n, 'l': n.get('l')})

    def s_try(self, st, n):
        st0 = st.fork()
        evs0 = st.ev
        outs = self.exec(st, n['b'])
        res = []
        for s, o in outs:
            if o is not None and o[0] == 'throw':
                h = self.handler(n['h'], o[1])
                if h is not None:
                    res += self.run_handler(s, h, n)
                    continue
            res.append((s, o))
        # calls with unknown bodies may throw: one extra path per handler, from an arbitrary point
        vs, fs = self.mods_of(n['b'])
        for h in n['h']:
            s = st0.fork()
            self.havoc(s, vs, fs, self.fresh())
            self.event(s, 'caught', n, info=h['t'])
            res += self.run_handler(s, h, n)
        return res

    def handler(self, hs, t):
        for h in hs:
            ht = h['t'].replace('const ', '').rstrip('&')
            if ht == '...' or ht == t or ht.startswith('std::exception') or ht.endswith('FatalException') and 'FatalException' in t:
                return h
        return None

    def run_handler(self, st, h, n):
        if 'v' in h:
            self.set(st, ('var', h['v']['id'], st.frame.no), ('exc', self.fresh()))
        return self.exec(st, h['b'])

    # ------------------------------------------------------------ loops
    def s_while(self, st, n):
        return self.loop(st, n, n.get('c'), n['b'], None, n.get('cvar'))

    def s_for(self, st, n):
        vars_ = []

        def body(s0):
            pre = [(s0, None)]
            if n.get('init'):
                pre = self.exec_decl(s0, n['init'], vars_) if n['init']['k'] == 'decl' else self.exec(s0, n['init'])
            out = []
            for s, o in pre:
                if o is not None:
                    out.append((s, o))
                else:
                    out += self.loop(s, n, n.get('c'), n['b'], n.get('inc'), n.get('cvar'))
            return out
        return self.scope(st, vars_, body)

    def s_do(self, st, n):
        return self.loop(st, n, n['c'], n['b'], None, None, do=True)

    def induction(self, n, vs):
        """variables changed in the loop only by constant positive/negative steps"""
        steps = {}
        bad = set()
        nodes = [n['b']] + [x for x in (n.get('inc'), n.get('c')) if x]
        for root in nodes:
            for x in walk(root):
                k = x.get('k')
                tgt = None
                step = None
                if k == 'un' and x['op'] in ('++', 'p++', '--', 'p--'):
                    tgt = x['e']
                    step = 1 if '++' in x['op'] else -1
                elif k == 'asg':
                    tgt = x['a']
                    if x['op'] == '+=' and x['b'].get('k') == 'int' and x['b']['v'] >= 0:
                        step = 1
                    elif x['op'] == '-=' and x['b'].get('k') == 'int' and x['b']['v'] >= 0:
                        step = -1
                    else:
                        step = None
                elif k == 'call':
                    for a, m in zip(x.get('a', ()), x.get('pm', ())):
                        if m in ('r', 'p') and isinstance(a, dict):
                            r = a['e'] if a.get('k') == 'un' and a['op'] == '&' else a
                            if r.get('k') == 'ref' and 'id' in r:
                                bad.add(r['id'])
                    continue
                else:
                    continue
                if isinstance(tgt, dict) and tgt.get('k') == 'ref' and 'id' in tgt:
                    i = tgt['id']
                    if step is None or steps.get(i, step) != step:
                        bad.add(i)
                    else:
                        steps[i] = step
        return {i: s for i, s in steps.items() if i not in bad}

    def flagvars(self, st):
        """variables of type bool of the function being followed"""
        c = self.p.__dict__.setdefault('_flagvars', {})
        k = st.frame.key
        if k not in c:
            g = self.p.fn.get(k)
            c[k] = {d['id'] for x in walk(g['body']) if x.get('k') == 'decl' for d in x.get('d', ()) if d.get('t') == 'bool' and 'id' in d} if g else set()
        return c[k]

    def unequal_bounds(self, st, n, cond, ind, entryvals, vs):
        """[(counter, limit)] for loops that count up from 0, one by one, until the counter equals the limit"""
        out = []
        parts = [cond] if cond else []
        while parts:
            c = parts.pop()
            if c.get('k') == 'bin' and c.get('op') == '&&':
                parts += [c['a'], c['b']]
                continue
            if c.get('k') != 'bin' or c.get('op') != '!=':
                continue
            for a, b in ((c['a'], c['b']), (c['b'], c['a'])):
                i = a.get('id') if a.get('k') == 'ref' else None
                if i not in ind or ind[i] != 1 or entryvals[i] != ZERO or 'unsigned' not in b.get('t', ''):
                    continue
                if any(x.get('k') == 'asg' and x['a'].get('k') == 'ref' and x['a'].get('id') == i for r in (n['b'], n.get('inc'), n.get('c')) if r for x in walk(r)):
                    continue
                if b.get('k') == 'ref' and b.get('st') in ('l', 'p') and b.get('id') not in vs:
                    out.append((i, self.read(st, self.resolve_var(st, b['id']))))
                elif b.get('k') == 'call' and b.get('f', '').endswith(('::size', '::length')) and b.get('o', {}).get('k') == 'ref' and b['o'].get('id') is not None and b['o']['id'] not in vs and not any(isinstance(v, tuple) and v[0] == b['o']['id'] for v in vs):
                    out.append((i, self.sizeof(self.read(st, self.resolve_var(st, b['o']['id'])))))
        return out

    def loop(self, st, n, cond, body, inc, cvar, do=False, rng=None):
        lid = self.fresh()
        out = []
        vs, fs = self.mods_of(n)
        ind = self.induction(n, vs)
        entryvals = {i: self.read(st, self.resolve_var(st, i)) for i in ind}

        def evcond(s):
            if cvar is not None:
                r = self.declare(s, cvar, n)
            else:
                r = [s]
            ts, fl = [], []
            for x in r:
                if cond is None:
                    ts.append(x)
                    continue
                for y, v in self.eval(x, cond):
                    a, b = self.branch(y, v, n)
                    ts += a
                    fl += b
            return ts, fl

        bounds = self.unequal_bounds(st, n, cond, ind, entryvals, vs)

        def assume_ind(s):
            for i, hi in bounds:
                f = s.facts.with_(truth(('op', '<=', self.read(s, self.resolve_var(s, i)), hi)))
                if f:
                    s.facts = f[0]
            for i, stp in ind.items():
                loc = self.resolve_var(s, i)
                v = self.read(s, loc)
                t = truth(('op', '>=', v, entryvals[i])) if stp > 0 else truth(('op', '<=', v, entryvals[i]))
                f = s.facts.with_(t)
                if f:
                    s.facts = f[0]
        if not do and cond is not None and any('litp' in repr(v) for v in entryvals.values()):
            # iteration over a literal list: follow it exactly
            cur, done = [st], []
            for _ in range(40):
                nxt = []
                for s in cur:
                    (r, ab) = self.collect(lambda: evcond(s))
                    done += ab
                    done += [(x, None) for x in r[1]]
                    for x in r[0]:
                        for s2, o in self.exec(x, body):
                            if o is None or o == ('continue',):
                                if inc is not None:
                                    rr, ab2 = self.collect(lambda: self.eval(s2, inc))
                                    done += ab2
                                    nxt += [y for y, _ in rr]
                                else:
                                    nxt.append(s2)
                            elif o == ('break',):
                                done.append((s2, None))
                            else:
                                done.append((s2, o))
                cur = nxt
                if not cur:
                    return done
            raise TooComplex('literal loop in %s' % self.entry['key'])
        # zero iterations
        if not do and cond is not None:
            s0 = st.fork()
            (r, ab) = self.collect(lambda: evcond(s0))
            out += ab
            for s in r[1]:
                self.event(s, 'loop', n, info='zero', val=('c', lid))
                out.append((s, None))
            if not r[0]:
                return out
        # one arbitrary iteration
        s1 = st.fork()
        self.havoc(s1, vs, fs, self.fresh())
        assume_ind(s1)
        e = self.event(s1, 'loop', n, info='begin', val=('c', lid))
        for i in vs:
            if i not in entryvals:
                try:
                    entryvals[i] = self.read(st, self.resolve_var(st, i))
                except Exception:
                    pass
        indinfo = {i: (entryvals[i], self.read(s1, self.resolve_var(s1, i))) for i in entryvals}
        e.obj = None
        e.args = tuple((('c', i), a, b) for i, (a, b) in indinfo.items())
        s1.loops = s1.loops + (lid,)
        flags = [l for l in (self.resolve_var(s1, i) for i in vs if i in self.flagvars(s1) and i in indinfo) if l[0] == 'var' and self.is_local(l)]
        if do:
            starts, ab = [s1], []
        else:
            (r, ab) = self.collect(lambda: evcond(s1))
            starts = r[0]
        out += [(self.popl(s, lid), o) for s, o in ab]
        for s in starts:
            for s2, o in self.exec(s, body):
                if o is None or o == ('continue',):
                    nxt = [s2]
                    if inc is not None:
                        rr, ab2 = self.collect(lambda: self.eval(s2, inc))
                        nxt = [x for x, _ in rr]
                        out += [(self.popl(x, lid), y) for x, y in ab2]
                    for x in nxt:
                        ee = self.event(x, 'loop', n, info='iterend', val=('c', lid))
                        ee.args = tuple((('c', i), b, self.read(x, self.resolve_var(x, i))) for i, (a, b) in indinfo.items())
                        self.popl(x, lid)
                        # after an unknown number of further iterations
                        if cond is None:
                            out.append((x, ('loop',)))
                            continue
                        if not do:
                            # flags keep what the last iteration left in them
                            kept = [(l, self.read(x, l)) for l in flags if l in x.mem]
                            self.havoc(x, vs, fs, self.fresh())
                            for l, v in kept:
                                self.set(x, l, v)
                            assume_ind(x)
                        rr, ab3 = self.collect(lambda: evcond(x))
                        out += ab3
                        if not rr[1] and not ab3:
                            # a loop that is only left from inside
                            out.append((rr[0][0] if rr[0] else x, ('loop',)))
                        for y in rr[1]:
                            ex = self.event(y, 'loop', n, info='exit', val=('c', lid))
                            ex.args = tuple((('c', i), None, self.read(y, self.resolve_var(y, i))) for i in indinfo)
                            out.append((y, None))
                elif o == ('break',):
                    self.event(s2, 'loop', n, info='break', val=('c', lid))
                    out.append((self.popl(s2, lid), None))
                else:
                    out.append((self.popl(s2, lid), o))
        if len(out) > self.maxpaths:
            raise TooComplex('path bound exceeded in %s' % self.entry['key'])
        return out

    def popl(self, s, lid):
        if lid in s.loops:
            s.loops = tuple(x for x in s.loops if x != lid)
        return s

    def s_rfor(self, st, n):
        out = []
        lv = self.is_lv(n['r'])
        r, ab = self.collect(lambda: [(s, self.read(s, l), l) for s, l in self.lval(st, n['r'])] if lv else [(s, v, None) for s, v in self.eval(st, n['r'])])
        out += ab
        for s, cv, cl in r:
            lid = self.fresh()
            vs, fs = self.mods_of(n['b'])
            size = self.sizeof(cv)
            # zero iterations
            s0 = s.fork()
            for f in s0.facts.with_(truth(('op', '==', size, ZERO))):
                s0.facts = f
                self.event(s0, 'loop', n, info='zero', val=('c', lid), obj=cv, objloc=cl)
                out.append((s0, None))
                break
            pos = s.facts.with_(truth(('op', '>', size, ZERO)))
            if not pos:
                continue
            s1 = s
            s1.facts = pos[0]
            before = {}
            for i in vs:
                if isinstance(i, tuple):
                    continue
                l = self.resolve_var(s1, i)
                if l in s1.mem or l in s1.par or l[0] != 'var':
                    before[i] = self.read(s1, l)
            self.havoc(s1, vs, fs, self.fresh())
            e = self.event(s1, 'loop', n, info='begin', val=('c', lid), obj=cv, objloc=cl)
            inside = {i: self.read(s1, self.resolve_var(s1, i)) for i in before}
            e.args = tuple((('c', i), before[i], inside[i]) for i in before)
            s1.loops = s1.loops + (lid,)
            d = n['v']
            el = ('elem', cv, lid)
            t = d['t']
            if t.endswith('&') and cl is not None:
                eloc = ('ix', cl, ('it', lid))
                s1.mem[eloc] = el
                ks = s1.par.get(cl)
                # not registered as a child: the container value itself is unchanged
                s1.mem[('ref', d['id'], s1.frame.no)] = eloc
                self.bindings(s1, d, eloc)
            else:
                loc = ('var', d['id'], s1.frame.no)
                s1.mem.pop(('ref', d['id'], s1.frame.no), None)
                self.set(s1, loc, el)
                self.bindings(s1, d, loc)
            for s2, o in self.exec(s1, n['b']):
                if o is None or o == ('continue',):
                    ee = self.event(s2, 'loop', n, info='iterend', val=('c', lid))
                    ee.args = tuple((('c', i), inside[i], self.read(s2, self.resolve_var(s2, i))) for i in before)
                    self.popl(s2, lid)
                    self.havoc(s2, vs, fs, self.fresh())
                    ex = self.event(s2, 'loop', n, info='exit', val=('c', lid))
                    ex.args = tuple((('c', i), None, self.read(s2, self.resolve_var(s2, i))) for i in before)
                    out.append((s2, None))
                elif o == ('break',):
                    self.event(s2, 'loop', n, info='break', val=('c', lid))
                    out.append((self.popl(s2, lid), None))
                else:
                    out.append((self.popl(s2, lid), o))
        return out

    def algorithm(self, st, n, m, vs):
        """std::any_of and its relatives over a whole container, as the loop they stand for"""
        b, e, lam = vs
        if not (b[0] == 'call' and b[1] == 'begin' and e == ('call', 'end', b[2])):
            return None
        cv = b[2]
        found = ('call', 'std::' + m) + vs
        if m == 'find':
            known = [x for x in ('quarkdb::contains',) if match(x, self.pure)]
            if known:
                # membership itself is a term here: the iterator is the end exactly when there is no such element
                t = ('call', known[0], cv, lam)
                out = []
                for lit, v in ((truth(t), found), (tneg(truth(t)), e)):
                    for fx in st.facts.with_(lit):
                        for fy in fx.with_(truth(('op', '!=', v, e))) if v is found else [fx]:
                            s = st.fork()
                            s.facts = fy
                            out.append((s, v, None))
                return out
            node, own = {'body': None}, ()
        else:
            if lam not in getattr(self, 'lams', {}):
                return None
            node, lfr, own = self.lams[lam]
            if len(node['params']) != 1:
                return None
        a0 = n['a'][0]
        cl = None
        if a0.get('k') == 'call' and a0.get('o') is not None and self.is_lv(a0['o']):
            r = self.lval(st.fork(), a0['o'])
            if len(r) == 1:
                cl = r[0][1]
        out = []
        lid = self.fresh()
        vars_, fs = self.mods_of(node['body']) if node['body'] else (set(), set())
        vars_ = {i for i in vars_ if (i[0] if isinstance(i, tuple) else i) not in own}
        size = self.sizeof(cv)
        none = {'any_of': C(0), 'all_of': C(1), 'none_of': C(1), 'for_each': lam, 'find': e, 'find_if': e}[m]
        s0 = st.fork()
        for f in s0.facts.with_(truth(('op', '==', size, ZERO))):
            s0.facts = f
            self.event(s0, 'loop', n, info='zero', val=('c', lid), obj=cv, objloc=cl)
            out.append((s0, none, None))
            break
        pos = st.facts.with_(truth(('op', '>', size, ZERO)))
        if not pos:
            return out
        s1 = st
        s1.facts = pos[0]
        before = {}
        for i in vars_:
            if isinstance(i, tuple):
                continue
            l = self.resolve_var(s1, i)
            if l in s1.mem or l in s1.par or l[0] != 'var':
                before[i] = self.read(s1, l)
        self.havoc(s1, vars_, fs, self.fresh())
        ev = self.event(s1, 'loop', n, info='begin', val=('c', lid), obj=cv, objloc=cl)
        inside = {i: self.read(s1, self.resolve_var(s1, i)) for i in before}
        ev.args = tuple((('c', i), before[i], inside[i]) for i in before)
        s1.loops = s1.loops + (lid,)
        el = ('elem', cv, lid)
        eloc = None
        if cl is not None:
            eloc = ('ix', cl, ('it', lid))
            s1.mem[eloc] = el
        for s2, v, _ in ([(s1, ('op', '==', el, lam), None)] if m == 'find' else self.call_lambda(s1, lam, (el,), (eloc,), n)):
            stop = []
            go = [s2]
            if m != 'for_each':
                t = truth(v if v is not None else ZERO)
                hit = tneg(t) if m == 'all_of' else t
                stop, go = [], []
                for lst, lit in ((stop, hit), (go, tneg(hit))):
                    for fx in s2.facts.with_(lit):
                        s = s2.fork()
                        s.facts = fx
                        lst.append(s)
            for s in stop:
                self.event(s, 'loop', n, info='break', val=('c', lid))
                if m in ('find', 'find_if'):
                    for fx in s.facts.with_(truth(('op', '!=', found, e))):
                        s.facts = fx
                        out.append((self.popl(s, lid), found, None))
                        break
                    continue
                out.append((self.popl(s, lid), C(1) if m == 'any_of' else C(0), None))
            for s in go:
                ee = self.event(s, 'loop', n, info='iterend', val=('c', lid))
                ee.args = tuple((('c', i), inside[i], self.read(s, self.resolve_var(s, i))) for i in before)
                self.popl(s, lid)
                self.havoc(s, vars_, fs, self.fresh())
                ex = self.event(s, 'loop', n, info='exit', val=('c', lid))
                ex.args = tuple((('c', i), None, self.read(s, self.resolve_var(s, i))) for i in before)
                out.append((s, none, None))
        return out

    def sizeof(self, v):
        """value of size() of a container value"""
        k = v[0]
        if k == 's':
            return C(len(v[1]))
        if k == 'list':
            return C(len(v[1]))
        if k == 'bytes':
            return v[2]
        if k == 'text':
            return v[2]
        if k == 'ctor' and v[1] == 'std::string' and len(v[2]) == 2 and v[2][0][0] != 'c':
            return v[2][1]
        if k == 'ctor' and v[1] in ('std::vector', 'std::list', 'std::deque', 'std::map', 'std::set', 'std::string', 'std::multimap', 'std::queue') and not v[2]:
            return ZERO
        if k == 'mut':
            m = v[1].rsplit('::', 1)[-1]
            if m in ('push_back', 'emplace_back', 'push_front', 'emplace_front') and len(v[3]) == 1 and ('vector' in v[1] or 'list' in v[1] or 'deque' in v[1] or 'queue' in v[1]):
                return add(self.sizeof(v[2]), C(1))
            if m in ('pop_front', 'pop_back') and ('list' in v[1] or 'deque' in v[1] or 'vector' in v[1]):
                return sub(self.sizeof(v[2]), C(1))
            if m == 'clear':
                return ZERO
        if k == 'cat':
            t = ZERO
            for x in v[1]:
                t = add(t, self.sizeof(x))
            return t
        return ('call', 'size', v)

    # ------------------------------------------------------------ lvalues
    def is_lv(self, n):
        k = n.get('k')
        if k == 'ref':
            return True
        if k == 'mem':
            return True
        if k == 'idx':
            return True
        if k == 'un':
            return n['op'] in ('*', '++', '--')
        if k == 'asg':
            return True
        if k == 'cast':
            return self.is_lv(n['e']) and n['t'].endswith('&')
        if k == 'call':
            if n.get('f') in ('std::move', 'std::forward'):
                return self.is_lv(n['a'][0])
            return n.get('rt', '').endswith('&')
        if k == 'cond':
            return self.is_lv(n['a']) and self.is_lv(n['b'])
        return False

    def lval(self, st, n):
        """-> [(state, loc)]"""
        self.tick()
        k = n['k']
        if k == 'ref':
            if n.get('st') == 'g':
                return [(st, ('g', n['n']))]
            return [(st, self.resolve_var(st, n['id']))]
        if k == 'mem':
            out = []
            if n.get('ar'):
                for s, v in self.eval(st, n['b']):
                    out.append((s, self.fieldloc(s, self.deref(v), n['f'])))
            else:
                if self.is_lv(n['b']):
                    for s, l in self.lval(st, n['b']):
                        out.append((s, self.fieldloc(s, l, n['f'])))
                else:
                    for s, v in self.eval(st, n['b']):
                        l = ('tmp', self.fresh(), 0)
                        self.set(s, l, v)
                        out.append((s, self.fieldloc(s, l, n['f'])))
            if self.reads:
                for s, l in out:
                    if not self.is_local(l):
                        self.event(s, 'read', n, loc=l)
            if n['f'] in self.volatile:
                # another thread may have changed it since it was last looked at
                for s, l in out:
                    self.set(s, l, ('hav', self.fresh(), l))
            return out
        if k == 'idx':
            out = []
            for s, i in self.eval(st, n['i']):
                if self.is_lv(n['b']):
                    for s2, l in self.lval(s, n['b']):
                        bt = n['b'].get('t', '')
                        if bt.endswith('*'):
                            out.append((s2, ('ix', self.deref(self.read(s2, l)), i)))
                        else:
                            out.append((s2, ('ix', l, i)))
                else:
                    for s2, v in self.eval(s, n['b']):
                        out.append((s2, ('ix', self.deref(v), i)))
            for s, l in out:
                self.note_index(s, l, n)
            return out
        if k == 'un':
            if n['op'] == '*':
                return [(s, self.deref(v)) for s, v in self.eval(st, n['e'])]
            if n['op'] in ('++', '--'):
                return [(s, l) for s, v, l in self.incdec(st, n)]
        if k == 'asg':
            return [(s, l) for s, v, l in self.assign(st, n)]
        if k == 'cast':
            return self.lval(st, n['e'])
        if k == 'cond':
            out = []
            for s, v in self.eval(st, n['c']):
                a, b = self.branch(s, v, n)
                for x in a:
                    out += self.lval(x, n['a'])
                for x in b:
                    out += self.lval(x, n['b'])
            return out
        if k == 'call':
            out = []
            for s, v, l in self.call(st, n):
                if l is None:
                    l = ('d', v) if v is not None else ('tmp', self.fresh(), 0)
                    if v is not None and v[0] in ('s', 'c', 'cat', 'ctor', 'struct', 'list'):
                        l = ('tmp', self.fresh(), 0)
                        self.set(s, l, v)
                out.append((s, l))
            return out
        # rvalue used as an object
        out = []
        for s, v in self.eval(st, n):
            l = ('tmp', self.fresh(), 0)
            self.set(s, l, v)
            out.append((s, l))
        return out

    def note_index(self, st, loc, node):
        self.event(st, 'index', node, loc=loc, obj=self.read(st, loc[1]) if loc[0] == 'ix' else None)

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'init' and v[1][0] == 'd':
            pass
        if v[0] == 'this':
            return ('d', v)
        if v[0] == 'thisptr':
            return v[1]
        return ('d', v)

    def fieldloc(self, st, base, f):
        """follow reference members"""
        loc = ('f', base, f)
        v = st.mem.get(loc)
        if v is not None and v[0] == 'addr':
            ft = self.p.fieldtype.get(f, '')
            if ft.endswith('&'):
                return v[1]
        return loc

    # ------------------------------------------------------------ expressions
    def eval(self, st, n, this_target=None):
        """-> [(state, value)]"""
        self.tick()
        if n is None:
            return [(st, None)]
        k = n['k']
        if k == 'int':
            return [(st, ('c', n['v']))]
        if k == 'bool':
            return [(st, ('c', bool(n['v'])))]
        if k == 'char':
            return [(st, ('c', n['v']))]
        if k == 'str':
            return [(st, ('s', n['v']))]
        if k == 'float':
            return [(st, ('c', n['v']) if n['v'] == int(n['v']) else ('fl', n['v']))]
        if k == 'null':
            return [(st, NULL)]
        if k == 'this':
            th = st.frame
            while th.this is None and th.parent is not None:
                th = th.parent
            t = th.this
            if t == ('d', ('this',)):
                return [(st, ('this',))]
            return [(st, ('addr', t))]
        if k == 'enum':
            return [(st, ('e', n['n']))]
        if k == 'fn':
            return [(st, ('fn', n['key']))]
        if k == 'ref':
            if 'cv' in n:
                return [(st, ('c', n['cv']))]
            if n.get('st') == 'g':
                g = self.p.glob.get(n['n'])
                if g is not None and g['t'].startswith('const') and isinstance(g.get('e'), dict):
                    if g['e']['k'] == 'str':
                        return [(st, ('s', g['e']['v']))]
                    if g['e']['k'] == 'int':
                        return [(st, C(g['e']['v']))]
            l = self.lval(st, n)
            if n.get('t', '').endswith(']') and n.get('st') in ('l', 'p'):
                return [(s, ('addr', x)) for s, x in l]
            return [(s, self.rd(s, x, n)) for s, x in l]
        if k in ('mem', 'idx'):
            return [(s, self.rd(s, l, n)) for s, l in self.lval(st, n)]
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise AnalysisBroken('expression kind %s at %s' % (k, st.frame.key))
        if k in ('ctor', 'copy', 'init'):
            return m(st, n, this_target)
        return m(st, n)

    def rd(self, st, loc, n):
        if self.reads and loc[0] == 'g':
            self.event(st, 'read', n, loc=loc)
        return self.read(st, loc)

    def e_zero(self, st, n):
        t = n.get('t', '')
        if t.endswith('*'):
            return [(st, NULL)]
        return [(st, ZERO if not t.startswith('std::') else ('ctor', base_type(t), ()))]

    def e_x(self, st, n):
        return [(st, ('unk', self.fresh()))]

    def e_un(self, st, n):
        op = n['op']
        if op == '&':
            if self.is_lv(n['e']):
                return [(s, ('addr', l)) for s, l in self.lval(st, n['e'])]
            return [(s, v) for s, v in self.eval(st, n['e'])]
        if op == '*':
            return [(s, self.rd(s, l, n)) for s, l in self.lval(st, n)]
        if op in ('++', '--', 'p++', 'p--'):
            return [(s, v) for s, v, l in self.incdec(st, n)]
        out = []
        for s, v in self.eval(st, n['e']):
            if op == '!':
                if v[0] == 'op' and v[1] == '!':
                    x = v[2]
                    out.append((s, x if x[0] == 'op' and (x[1] in CMP or x[1] == '!') else ('op', '!', v)))
                elif v[0] == 'c':
                    out.append((s, ('c', not v[1])))
                else:
                    out.append((s, ('op', '!', v)))
            elif op == '-':
                out.append((s, mul(v, C(-1))))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, ('op', op, v)))
        return out

    def incdec(self, st, n):
        out = []
        d = 1 if '++' in n['op'] else -1
        for s, l in self.lval(st, n['e']):
            old = self.read(s, l)
            new = add(old, C(d))
            self.write(s, l, new, n, n['op'])
            out.append((s, old if n['op'].startswith('p') else new, l))
        return out

    def e_asg(self, st, n):
        return [(s, v) for s, v, l in self.assign(st, n)]

    def assign(self, st, n):
        out = []
        op = n['op'][:-1]
        for s, v in self.eval(st, n['b']):
            for s2, l in self.lval(s, n['a']):
                if self.is_test(v, n) and op in ('', '|', '&') and not self.is_local(l):
                    # a stored test: one path per outcome
                    ts, fs = self.branch(s2, v, n)
                    for x, r in [(y, True) for y in ts] + [(y, False) for y in fs]:
                        w = ('c', r) if not op or r == (op == '|') else self.read(x, l)
                        self.write(x, l, w, n, n['op'])
                        out.append((x, w, l))
                    continue
                if op:
                    v2 = self.binop(op, self.read(s2, l), v)
                else:
                    v2 = v
                self.write(s2, l, v2, n, n['op'])
                out.append((s2, v2, l))
        return out

    def is_test(self, v, n):
        if not isinstance(v, tuple) or v[:1] != ('op',):
            return False
        return v[1] in CMP or v[1] == '!' or v[1] in ('&&', '||')

    def binop(self, op, a, b):
        if op == '+':
            if a[0] in ('s', 'cat') or b[0] in ('s', 'cat'):
                return self.cat(a, b)
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op in CMP:
            return self.cmp(op, a, b)
        if is_num(a) and is_num(b):
            x, y = int(a[1]), int(b[1])
            try:
                if op == '/':
                    return C(int(x / y) if y else 0)
                if op == '%':
                    return C(x % y)
                if op == '<<':
                    return C(x << y)
                if op == '>>':
                    return C(x >> y)
                if op == '&':
                    return C(x & y)
                if op == '|':
                    return C(x | y)
            except Exception:
                pass
        if op in ('&', '|', '^'):
            return ('op', op) + tuple(sorted((a, b), key=repr))
        return ('op', op, a, b)

    def cmp(self, op, a, b):
        if op in ('>', '>='):
            a, b = b, a
            op = '<' if op == '>' else '<='
        if op in ('==', '!='):
            if repr(b) < repr(a):
                a, b = b, a
        v = ('op', op, a, b)
        t = truth(v)
        if t is True or t is False:
            return ('c', t)
        return v

    def cat(self, *vs):
        out = []
        for v in vs:
            if v[0] == 'ctor' and not v[2]:
                v = ('s', '')
            if v[0] == 'cat':
                out += v[1]
            elif v[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + v[1])
            elif v == ('s', ''):
                pass
            else:
                out.append(v)
        m = []
        for v in out:
            if v[0] == 's' and m and m[-1][0] == 's':
                m[-1] = ('s', m[-1][1] + v[1])
            else:
                m.append(v)
        if not m:
            return ('s', '')
        if len(m) == 1:
            return m[0]
        return ('cat', tuple(m))

    def e_bin(self, st, n):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for s, v in self.eval(st, n['a']):
                ts, fs = self.branch(s, v, n)
                if op == '&&':
                    out += [(x, FALSE) for x in fs]
                    for x in ts:
                        out += [(y, w) for y, w in self.eval(x, n['b'])]
                else:
                    out += [(x, TRUE) for x in ts]
                    for x in fs:
                        out += [(y, w) for y, w in self.eval(x, n['b'])]
            return out
        if op == ',':
            out = []
            for s, v in self.eval(st, n['a']):
                out += self.eval(s, n['b'])
            return out
        out = []
        for s, a in self.eval(st, n['a']):
            for s2, b in self.eval(s, n['b']):
                if a == b and op in ('==', '!=') and not is_num(a):
                    v = self.same(n, a)
                    if v is not None:
                        out.append((s2, v if (op == '==') == (v[1] != 'std::isnan') else ('op', '!', v)))
                        continue
                out.append((s2, self.binop(op, a, b)))
        return out

    def same(self, n, a):
        """comparing a value with itself tells whether it is a number, or fits into what it was cast to"""
        ts = [str(n[k].get('t', '')).rstrip('&') for k in ('a', 'b')]
        if any(t in ('double', 'float') for t in ts):
            return ('call', 'std::isnan', a)
        for k, t in zip(('a', 'b'), ts):
            if n[k].get('k') == 'cast' and t != ts[1 - ('a', 'b').index(k)]:
                return ('call', 'std::in_range<%s>' % t, a)
        return None

    def e_cond(self, st, n):
        out = []
        for s, v in self.eval(st, n['c']):
            ts, fs = self.branch(s, v, n)
            for x in ts:
                out += self.eval(x, n['a'])
            for x in fs:
                out += self.eval(x, n['b'])
        return out

    def e_cast(self, st, n):
        if n.get('void'):
            return [(s, None) for s, v in self.eval(st, n['e'])]
        return self.eval(st, n['e'])

    def e_new(self, st, n):
        nid = self.fresh()
        ptr = ('new', nid, n['t'])
        if 'e' in n:
            out = []
            for s, v in self.eval(st, n['e'], this_target=('d', ptr)):
                args = (v,) if v is not None else ()
                if v is not None and v[0] == 'ctor':
                    args = v[2]
                self.event(s, 'new', n, name=n['t'], val=ptr, args=args)
                if v is not None and v[0] not in ('inplace', 'ctor'):
                    self.set(s, ('d', ptr), v)
                out.append((s, ptr))
            return out
        if 'n' in n:
            out = []
            for s, v in self.eval(st, n['n']):
                self.event(s, 'new', n, name=n['t'] + '[]', val=ptr, args=(v,))
                out.append((s, ptr))
            return out
        self.event(st, 'new', n, name=n['t'], val=ptr)
        return [(st, ptr)]

    def e_delete(self, st, n):
        out = []
        for s, v in self.eval(st, n['e']):
            self.event(s, 'delete', n, val=v)
            out.append((s, None))
        return out

    def e_throw(self, st, n):
        t = n.get('t', '?')
        self.event(st, 'throw', n, info=t)
        self.ab.append((st, ('throw', t)))
        return []

    def e_lambda(self, st, n):
        own = self._own.get(id(n))
        if own is None:
            own = set(p['id'] for p in n['params'])
            for x in walk(n['body']):
                if x.get('k') == 'decl':
                    for d in x['d']:
                        own.add(d['id'])
                        for b in d.get('bind', ()):
                            own.add(b['id'])
                elif x.get('k') == 'rfor':
                    own.add(x['v']['id'])
                    for b in x['v'].get('bind', ()):
                        own.add(b['id'])
                elif 'cvar' in x:
                    own.add(x['cvar']['id'])
                elif x.get('k') == 'try':
                    for h in x['h']:
                        if 'v' in h:
                            own.add(h['v']['id'])
            self._own[id(n)] = own
        for c in n.get('caps', ()):
            if 'e' in c and 'id' in c:
                r = self.eval(st, c['e'])
                if len(r) == 1:
                    st = r[0][0]
                    self.set(st, ('var', c['id'], st.frame.no), r[0][1])
        lam = ('lam', n['key'], self.fresh())
        self.lams = getattr(self, 'lams', {})
        self.lams[lam] = (n, st.frame, frozenset(own))
        return [(st, lam)]

    def e_init(self, st, n, target=None):
        outs = [(st, ())]
        for a in n['a']:
            nxt = []
            for s, vs in outs:
                for s2, v in self.eval(s, a):
                    nxt.append((s2, vs + (v if v is not None else ('undef', 0),)))
            outs = nxt
        t = base_type(n.get('t', ''))
        recs = self.p.recbyname.get(t)
        res = []
        for s, vs in outs:
            if recs and len(vs) <= len(recs[0]['fields']):
                res.append((s, ('agg', t, tuple((f['n'], v) for f, v in zip(recs[0]['fields'], vs)))))
            elif len(vs) == 1 and not t.startswith('std::') and not t.endswith(']'):
                res.append((s, vs[0]))
            elif not vs and not t.startswith('std::'):
                res.append((s, ZERO))
            else:
                res.append((s, ('list', vs)))
        return res

    def e_copy(self, st, n, target=None):
        return self.eval(st, n['e'], this_target=target)

    # ------------------------------------------------------------ constructors
    def e_ctor(self, st, n, target=None):
        cls = n['c']
        b = base_type(cls)
        args = n['a']
        if b in ('std::atomic', 'std::__atomic_base', 'std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::function', 'std::weak_ptr') or b in STRINGY:
            out = []
            for s, vs, ls in self.evargs(st, n):
                if not vs:
                    if b in ('std::unique_ptr', 'std::shared_ptr', 'std::function', 'std::optional', 'std::weak_ptr'):
                        out.append((s, NULL))
                    elif b in STRINGY:
                        out.append((s, ('s', '')))
                    else:
                        out.append((s, ZERO))
                elif len(vs) == 1 or (b in ('std::unique_ptr', 'std::shared_ptr', 'std::function')) or (len(vs) == 2 and 'llocator' in str(args[1].get('c', '') or args[1].get('f', ''))) :
                    v = vs[0]
                    if b == 'std::optional' and v[0] == 'g' and 'nullopt' in str(v):
                        v = NULL
                    out.append((s, v))
                elif b in STRINGY and (len(vs) == 2 or len(vs) == 3 and vs[2][:2] == ('ctor', 'std::allocator')) and self.cut(vs[:2], s)[0] != 'text':
                    out.append((s, self.cut(vs[:2], s)))
                elif b in STRINGY and len(vs) == 3 and vs[2][:2] == ('ctor', 'std::allocator'):
                    out.append((s, vs[0] if vs[1] == ('call', 'size', vs[0]) else ('ctor', 'std::string', vs[:2])))
                elif b in STRINGY and len(vs) == 2:
                    v0 = vs[0]
                    if vs[1] == ('call', 'size', v0):
                        out.append((s, v0))
                    else:
                        out.append((s, ('ctor', 'std::string', vs)))
                else:
                    out.append((s, ('ctor', b if b not in STRINGY else 'std::string', vs)))
            return out
        if cls.startswith('quarkdb::'):
            f = self.p.fn.get(n.get('key'))
            if f is not None and self.may_inline(st, f, n):
                out = []
                for s, vs, ls in self.evargs(st, n):
                    loc = target if target is not None else ('tmp', self.fresh(), 0)
                    self.drop_kids(s, loc)
                    s.mem.pop(loc, None)
                    if self.is_local(loc):
                        s.mem[loc] = ('obj', cls)
                    self.event(s, 'call', n, name=f['name'], key=f['key'], obj=None, objloc=loc, args=vs, arglocs=ls, inl=True)
                    for s2, v, l in self.inline(s, f, loc, list(zip(vs, ls)), n, n['a']):
                        if target is not None:
                            out.append((s2, ('inplace', loc)))
                        else:
                            out.append((s2, self.read(s2, loc)))
                return out
            out = []
            for s, vs, ls in self.evargs(st, n):
                e = self.event(s, 'call', n, name=n['f'], key=n.get('key'), args=vs, arglocs=ls, objloc=target)
                if n.get('key') not in self.p.fn and not vs:
                    # implicit or defaulted constructor: apply member initialisers
                    rec = self.p.rec.get(cls)
                    if rec:
                        loc = target if target is not None else ('tmp', self.fresh(), 0)
                        self.drop_kids(s, loc)
                        s.mem[loc] = ('obj', cls)
                        cur = [s]
                        for fl in rec['fields']:
                            if 'e' in fl and fl['e'] is not None:
                                nx = []
                                for c in cur:
                                    for c2, v in self.eval(c, fl['e']):
                                        if v is not None and v[0] != 'inplace':
                                            self.set(c2, ('f', loc, fl['n']), v)
                                        nx.append(c2)
                                cur = nx
                            elif base_type(fl['t']) in ('std::vector', 'std::map', 'std::list', 'std::deque', 'std::set', 'std::multimap', 'std::unordered_map', 'std::queue'):
                                for c in cur:
                                    self.set(c, ('f', loc, fl['n']), ('ctor', base_type(fl['t']), ()))
                            elif base_type(fl['t']) == 'std::string':
                                for c in cur:
                                    self.set(c, ('f', loc, fl['n']), ('s', ''))
                        for c in cur:
                            out.append((c, ('inplace', loc) if target is not None else self.read(c, loc)))
                        continue
                self.opaque_effects(s, n, None, None, vs, ls, e)
                out.append((s, ('ctor', b, vs)))
            return out
        out = []
        for s, vs, ls in self.evargs(st, n):
            # references handed to library constructors may be kept; only std::thread is interesting
            if not _value_ctor(b):
                e = self.event(s, 'call', n, name=n['f'], key=n.get('key'), args=vs, arglocs=ls, objloc=target)
                self.opaque_effects(s, n, None, None, vs, ls, e)
            if b in ('std::pair', 'std::tuple', 'std::chrono::duration', 'std::chrono::time_point') and len(vs) == 1:
                out.append((s, vs[0]))
            elif len(vs) == 1 and vs[0][0] == 'list':
                out.append((s, vs[0]))
            else:
                out.append((s, ('ctor', b, vs)))
        return out

    def evargs(self, st, n):
        """-> [(state, (values), (locs))]"""
        outs = [(st, (), ())]
        modes = n.get('pm', ())
        for i, a in enumerate(n.get('a', ())):
            m = modes[i] if i < len(modes) else 'v'
            nxt = []
            for s, vs, ls in outs:
                if m in ('r', 'c', 'm') and self.is_lv(a):
                    for s2, l in self.lval(s, a):
                        nxt.append((s2, vs + (self.rd(s2, l, a),), ls + (l,)))
                elif a['k'] == 'lambda':
                    for s2, v in self.eval(s, a):
                        nxt.append((s2, vs + (v,), ls + (None,)))
                else:
                    for s2, v in self.eval(s, a):
                        if v is None:
                            v = ('void',)
                        l = None
                        if v[0] == 'addr' and m == 'p':
                            l = v[1]
                        nxt.append((s2, vs + (v,), ls + (l,)))
            outs = nxt
        return outs

    # ------------------------------------------------------------ calls
    def e_call(self, st, n):
        return [(s, v) for s, v, l in self.call(st, n)]

    def call(self, st, n):
        """-> [(state, value, loc or None)]"""
        f = n['f']
        if f == '?':
            out = []
            if 'ce' in n:
                for s, c in self.eval(st, n['ce']):
                    for s2, vs, ls in self.evargs(s, n):
                        out += self.call_value(s2, c, vs, ls, n)
                return out
            for s, vs, ls in self.evargs(st, n):
                out.append((s, ('ret', self.fresh(), '?', None, vs), None))
            return out
        if f in PASS_THROUGH:
            a = n['a'][0]
            if self.is_lv(a):
                return [(s, self.read(s, l), l) for s, l in self.lval(st, a)]
            return [(s, v, None) for s, v in self.eval(st, a)]
        # logging goes to std::cerr: no effect on the program
        if n.get('op') == '<<' and self.is_log(n):
            return [(st, ('gv', 'std::cerr'), ('g', 'std::cerr'))]
        outs = []
        if n.get('o') is not None:
            o = n['o']
            objs = []
            if n.get('ar'):
                for s, v in self.eval(st, o):
                    l = self.deref(v)
                    objs.append((s, l))
            elif self.is_lv(o):
                objs = self.lval(st, o)
            else:
                for s, v in self.eval(st, o):
                    if v is not None and v[0] == 'addr' and False:
                        l = v[1]
                    else:
                        l = ('tmp', self.fresh(), 0)
                        self.set(s, l, v if v is not None else ('void',))
                    objs.append((s, l))
            for s, l in objs:
                for s2, vs, ls in self.evargs(s, n):
                    outs += self.dispatch(s2, n, f, l, vs, ls)
            return outs
        for s, vs, ls in self.evargs(st, n):
            outs += self.dispatch(s, n, f, None, vs, ls)
        return outs

    def is_log(self, n):
        x = n
        while isinstance(x, dict) and x.get('k') == 'call' and x.get('op') == '<<':
            x = x.get('o') if x.get('o') is not None else (x['a'][0] if x.get('a') else None)
        return isinstance(x, dict) and x.get('k') == 'ref' and x.get('n') in ('std::cerr', 'std::cout', 'std::clog')

    def call_value(self, st, c, vs, ls, n):
        if c[0] == 'lam' and c in getattr(self, 'lams', {}):
            return self.call_lambda(st, c, vs, ls, n)
        if c[0] == 'fn' and c[1] in self.p.fn:
            fr = self.p.fn[c[1]]
            self.event(st, 'call', n, name=fr['name'], key=fr['key'], args=vs, arglocs=ls, inl=True)
            return self.inline(st, fr, None, list(zip(vs, ls)), n, n.get('a', []))
        e = self.event(st, 'call', n, name='<indirect>', obj=c, args=vs, arglocs=ls)
        return [(st, ('ret', e.n, '<indirect>', c, vs), None)]

    def call_lambda(self, st, lam, vs, ls, n):
        node, fr, own = self.lams[lam]
        if len(st.stack) >= self.maxdepth + 2:
            return [(st, ('ret', self.fresh(), '<lambda>', None, vs), None)]
        return self.inline(st, {'key': node['key'], 'params': node['params'], 'body': node['body'], 'ret': '', 'file': fr.file, 'name': '<lambda>'}, None, list(zip(vs, ls)), n, n.get('a', []), parent=fr, own=own)

    def may_inline(self, st, f, n):
        if match(f['name'], self.opaque) or (match(f['name'], self.pure) and not match(f['name'], self.extra_inline)):
            return False
        if len(st.stack) >= self.maxdepth:
            return False
        if any(k == f['key'] for k in st.stack) or f['key'] == self.entry['key']:
            return False
        if match(f['name'], self.extra_inline):
            return True
        if self.inline_pred is not None:
            r = self.inline_pred(f, self)
            if r is not None:
                return r
        cls = f.get('cls')
        ecls = self.entry.get('cls')
        if cls is not None and ecls is not None and cls == ecls:
            return True
        if f.get('acc') == 'static' and f['file'] == self.entry['file']:
            return True
        if f['file'] == self.entry['file'] and self.p.size(f['key']) <= 4 * self.small:
            return True
        return self.p.size(f['key']) <= self.small

    def inline(self, st, f, this, args, n, argnodes, parent=None, own=None):
        no = self.fresh()
        fr = Frame(f, no, this, parent=parent, own=own, key=f['key'], file=f['file'], refret=f['ret'].endswith('&'))
        caller = st.frame
        cstack = st.stack
        st.frame = fr
        st.stack = st.stack + (f['key'],)
        for i, p in enumerate(f['params']):
            loc = ('var', p['id'], no)
            if i >= len(args):
                self.set(st, loc, ('undef', loc))
                continue
            v, l = args[i]
            if p['t'].endswith('&') and l is not None:
                st.mem[('ref', p['id'], no)] = l
            else:
                self.set(st, loc, v)
        starts = [st]
        old = self.ab
        self.ab = []
        if f.get('ctor'):
            starts = self.run_inits(st, f)
        outs = []
        for s in starts:
            outs += self.exec(s, f['body'])
        inner = self.ab
        self.ab = old
        res = []
        # by-value object parameters are destroyed by the caller; locks cannot be passed by value here
        for s, o in outs + inner:
            if o is not None and o[0] in ('throw', 'exit', 'loop'):
                s.frame = caller
                s.stack = cstack
                self.ab.append((s, o))
                continue
            v, l = (None, None)
            if o is not None and o[0] == 'ret':
                v, l = o[1], o[2]
            s.frame = caller
            s.stack = cstack
            if len(st.stack) <= 3 or True:
                self.event(s, 'ret', n, name=f['name'], val=v)
            res.append((s, v, l))
        if len(res) > self.maxpaths:
            raise TooComplex('path bound exceeded inlining %s in %s' % (f['key'], self.entry['key']))
        return res

    def opaque_effects(self, st, n, objloc, key, vs, ls, e):
        """what a call whose body we do not follow may change"""
        modes = n.get('pm', ())
        for i, l in enumerate(ls):
            m = modes[i] if i < len(modes) else 'v'
            if m == 'p' and i < len(n.get('a', ())) and ptr_var(n['a'][i]):
                # a pointer passed by value: the callee may change what it points to, not the pointer
                l = ('d', vs[i]) if ('d', vs[i]) in st.mem else None
            if l is not None and m in ('r', 'p') and not self.leaves_alone(n, i):
                self.write(st, l, ('out', e.n, e.name, i, self.short(vs[i])), n, 'out')
            elif l is not None and m == 'm':
                pass
        k = n.get('key')
        ms = set()
        if k in self.p.fn:
            ms |= self.p.modset(k)
        if n.get('vm'):
            for o in self.p.all_overriders(k):
                ms |= self.p.modset(o)
        if ms:
            self.havoc_fields(st, ms, e.n)

    def leaves_alone(self, n, i):
        """the callee's body is known and never writes its i-th parameter"""
        f = self.p.fn.get(n.get('key'))
        if f is None or n.get('vm') or i >= len(f['params']) or not f.get('body'):
            return False
        pid = f['params'][i].get('id')
        if pid is None:
            return False
        k = f['key'], i
        r = self._mods.get(k)
        if r is None:
            vs, fs = self.p.direct_mods(f['body'])
            for x in f.get('inits', ()):
                v2, _ = self.p.direct_mods(x.get('e') or {})
                vs |= v2
            r = not any(v == pid or isinstance(v, tuple) and v[0] == pid for v in vs) and not self.p.escapes(f, pid)
            self._mods[k] = r
        return r

    def short(self, v):
        return ()

    def dispatch(self, st, n, f, objloc, vs, ls):
        m = f.rsplit('::', 1)[-1]
        r = None
        if f.startswith('std::') or f.startswith('__') or not n.get('rp'):
            r = self.model_std(st, n, f, m, objloc, vs, ls)
            if r is not None:
                return r
        if f.startswith('quarkdb::PinnedBuffer::') and objloc is not None and self.entry.get('cls') != 'quarkdb::PinnedBuffer':
            # a buffer stands for its bytes
            ov = self.read(st, objloc)
            mm = f[23:]
            if mm in ('operator std::string_view', 'sv', 'operator std::basic_string_view', 'data', 'to_string'):
                return [(st, ('call', 'data', ov) if mm == 'data' else ov, None)]
            if mm in ('size', 'length'):
                return [(st, self.sizeof(ov), None)]
            if mm == 'empty':
                return [(st, self.cmp('==', self.sizeof(ov), ZERO), None)]
            if mm in ('operator[]',):
                l = ('ix', objloc, vs[0])
                self.note_index(st, l, n)
                return [(st, self.read(st, l), l)]
        op = n.get('op')
        if op in CMP and n.get('rp') and not match(f, self.extra_inline):
            a = self.read(st, objloc) if objloc is not None else vs[0]
            b = vs[0] if objloc is not None else vs[1]
            return [(st, self.cmp(op, a, b), None)]
        fr = self.p.fn.get(n.get('key'))
        if m == 'operator=' and fr is None and objloc is not None and len(vs) == 1:
            self.write(st, objloc, vs[0], n, '=')
            return [(st, vs[0], objloc)]
        virt = n.get('vm') and not n.get('ql')
        if fr is not None and virt and self.p.all_overriders(n['key']):
            # dynamic target unknown, unless called on the entry object whose class is the most derived
            fr = None if not (objloc == ('d', ('this',)) and not [o for o in self.p.all_overriders(n['key']) if True]) else fr
        if fr is not None and self.may_inline(st, fr, n):
            obj = self.read(st, objloc) if objloc is not None and False else None
            self.event(st, 'call', n, name=f, key=n['key'], objloc=objloc, obj=objloc, args=vs, arglocs=ls, inl=True)
            return self.inline(st, fr, objloc, list(zip(vs, ls)), n, n.get('a', []))
        # opaque
        if match(f, self.pure) or self.is_pure(n, fr, objloc):
            ov = self.read(st, objloc) if objloc is not None else None
            pe = self.event(st, 'call', n, name=f, key=n.get('key'), objloc=objloc, obj=ov, args=vs, arglocs=ls)
            modes = n.get('pm', ())
            ins = tuple(v for i, v in enumerate(vs) if not (i < len(modes) and modes[i] in ('r', 'p') and ls[i] is not None))
            args = ((ov,) if ov is not None else ()) + ins
            pe.ret = ('call', f) + args
            pe.pure = True
            for i, l in enumerate(ls):
                if l is not None and i < len(modes) and modes[i] in ('r', 'p'):
                    self.write(st, l, ('call', f + '#%d' % i) + args, n, 'out')
            return [(st, ('call', f) + args, None)]
        ov = self.read(st, objloc) if objloc is not None else None
        e = self.event(st, 'call', n, name=f, key=n.get('key'), objloc=objloc, obj=ov, args=vs, arglocs=ls)
        if n.get('nr'):
            self.ab.append((st, ('exit',)))
            return []
        if objloc is not None and not n.get('cm') and not n.get('sm') and not n.get('rp') and not f.startswith('rocksdb::DB::'):
            # non-const method of an external class changes its object
            self.write(st, objloc, ('mut', f, ov, vs), n, m)
        elif objloc is not None and not n.get('cm') and n.get('rp') and self.is_local(objloc):
            self.set(st, objloc, ('mut', f, ov, vs))
        self.opaque_effects(st, n, objloc, n.get('key'), vs, ls, e)
        # lambdas handed to unknown code may run: follow the body once
        for v in vs:
            if v[0] == 'lam' and v in getattr(self, 'lams', {}) and f.startswith('std::') and m not in ('thread',):
                node, lfr, own = self.lams[v]
                s2 = st
                r2, ab2 = self.collect(lambda: self.call_lambda(s2.fork(), v, tuple(('arb', self.fresh(), i) for i in range(len(node['params']))), (None,) * len(node['params']), n))
                for s3, v3, l3 in r2:
                    # keep only the events
                    pass
                if r2:
                    st = r2[0][0]
        e.ret = ('ret', e.n, f, ov, vs)
        return [(st, e.ret, None)]

    def is_pure(self, n, fr, objloc):
        if fr is None:
            return False
        if self.p.modset(n['key']):
            return False
        if objloc is None:
            if any(x in ('r', 'p') for x in n.get('pm', ())):
                return False
            return n.get('rt') != 'void' and self.static_pure(n['key'])
        return False

    def static_pure(self, key):
        """a repository function that only computes on its arguments"""
        c = getattr(self, '_sp', None)
        if c is None:
            c = self._sp = {}
        if key in c:
            return c[key]
        c[key] = True
        ok = True
        for k in self.p.reach(key):
            f = self.p.fn[k]
            for x in walk(f['body']):
                if x.get('k') == 'call' and x.get('key') not in self.p.fn:
                    nm = x.get('f', '')
                    if not nm.startswith('std::') and not nm.startswith('__') and nm not in ('memcpy', 'strtoll', 'strtol', 'strtoull', 'toupper', 'tolower', 'htobe64', 'be64toh', 'isprint'):
                        ok = False
                    if nm.startswith('std::chrono') and nm.endswith('::now'):
                        ok = False
                if x.get('k') == 'ref' and x.get('st') == 'g' and not x.get('t', '').startswith('const'):
                    ok = False
            if not ok:
                break
        c[key] = ok
        return ok

    # ------------------------------------------------------------ library models
    def model_std(self, st, n, f, m, objloc, vs, ls):
        """models of the standard library; None = not modelled"""
        op = n.get('op')
        if '::operator ' in f:
            m = f[f.index('::operator ') + 2:]
        one = lambda v, l=None: [(st, v, l)]
        ov = None
        if objloc is not None:
            ov = self.read(st, objloc)
        # comparisons
        if op in CMP:
            a = ov if objloc is not None else vs[0]
            b = vs[0] if objloc is not None else vs[1]
            return one(self.cmp(op, a, b))
        if objloc is None:
            if op == '+' and len(vs) == 2:
                if 'basic_string' in n.get('rt', '') or n.get('rt', '').startswith('std::string'):
                    return one(self.cat(vs[0], vs[1]))
                return one(self.binop('+', vs[0], vs[1]))
            if op == '-' and len(vs) == 2:
                return one(sub(vs[0], vs[1]))
            if op in ('*', '/', '%') and len(vs) == 2:
                return one(self.binop(op, vs[0], vs[1]))
            if op in ('|', '&') and len(vs) == 2:
                return one(self.binop(op, vs[0], vs[1]))
            if f in ('std::any_of', 'std::all_of', 'std::none_of', 'std::for_each', 'std::find', 'std::find_if') and len(vs) == 3:
                r = self.algorithm(st, n, m, vs)
                if r is not None:
                    return r
            if f in ('std::numeric_limits::max', 'std::numeric_limits::min') and not vs:
                bits = {'long': (1, 64), 'unsigned long': (0, 64), 'int': (1, 32), 'unsigned int': (0, 32), 'long long': (1, 64), 'unsigned long long': (0, 64),
                        'unsigned char': (0, 8), 'unsigned short': (0, 16), 'short': (1, 16)}.get(n.get('rt', ''))
                if bits:
                    lo, hi = (-(1 << bits[1] - 1), (1 << bits[1] - 1) - 1) if bits[0] else (0, (1 << bits[1]) - 1)
                    return one(C(hi if m == 'max' else lo))
                return one(('call', f, ('s', n.get('rt', ''))))
            if f in ('std::min', 'std::max'):
                if vs[0] == vs[1]:
                    return one(vs[0])
                # split: the smaller/larger of the two
                t = truth(('op', '<=', vs[0], vs[1]))
                out = []
                for fx in st.facts.with_(t):
                    s = st.fork()
                    s.facts = fx
                    i = 0 if m == 'min' else 1
                    out.append((s, vs[i], ls[i]))
                for fx in st.facts.with_(tneg(t)):
                    s = st.fork()
                    s.facts = fx
                    i = 1 if m == 'min' else 0
                    out.append((s, vs[i], ls[i]))
                return out
            if f in ('std::make_pair',):
                return one(('ctor', 'std::pair', vs))
            if f in ('std::make_shared', 'std::make_unique'):
                ptr = ('new', self.fresh(), n.get('rt', ''))
                self.event(st, 'new', n, name=n.get('rt', ''), val=ptr, args=vs)
                m0 = re.match(r'std::(?:shared_ptr|unique_ptr)<(?:const )?([\w:]+)', n.get('rt', ''))
                if m0:
                    cls = m0.group(1)
                    cs = [c for c in self.p.methods(cls) if c['name'] == cls + '::' + cls.split('::')[-1] and len(c['params']) == len(vs)]
                    if len(cs) == 1 and self.may_inline(st, cs[0], n):
                        loc = ('d', ptr)
                        self.event(st, 'call', n, name=cs[0]['name'], key=cs[0]['key'], obj=None, objloc=loc, args=vs, arglocs=ls, inl=True)
                        return [(s2, ptr, None) for s2, _, _ in self.inline(st, cs[0], loc, list(zip(vs, ls)), n, n['a'])]
                return one(ptr)
            if f in ('std::atomic_load', 'std::atomic_load_explicit'):
                loc = self.deref(vs[0])
                self.event(st, 'call', n, name=f, args=vs)
                return one(self.read(st, loc))
            if f in ('std::atomic_store', 'std::atomic_store_explicit'):
                loc = self.deref(vs[0])
                self.event(st, 'call', n, name=f, args=vs)
                self.write(st, loc, vs[1], n, 'atomic')
                return one(None)
            if f == 'std::swap' and ls[0] is not None and ls[1] is not None:
                a, b = vs
                self.write(st, ls[0], b, n, 'swap')
                self.write(st, ls[1], a, n, 'swap')
                return one(None)
            if f in ('memcpy', 'std::memcpy', '__builtin_memcpy') and len(vs) == 3:
                e = self.event(st, 'call', n, name='memcpy', args=vs, arglocs=ls)
                src, dst = vs[1], vs[0]
                if src[0] == 'addr':
                    x = self.read(st, src[1])
                    val = x if x[0] == 'bytes' else ('bytes', x, vs[2])
                else:
                    val = ('load', src, vs[2])
                if val[0] == 'bytes' and val[1][0] == 'load' and val[1][2] == val[2]:
                    val = val[1]
                e.val = val
                if dst[0] == 'addr':
                    self.write(st, dst[1], val, n, 'memcpy')
                else:
                    self.write(st, ('d', dst), val, n, 'memcpy')
                return one(dst)
            if f == 'std::to_string':
                return one(('call', 'std::to_string', vs[0]))
            if f in ('std::get',) and len(vs) == 1:
                return one(('call', f, vs[0]), None)
            if op == '<<' and 'basic_ostream' in n.get('rt', '') and self.is_text(vs[0]) and ls[0] is not None:
                self.event(st, 'app', n, loc=ls[0], val=self.streamed(n, vs[1]))
                v = self.cat(vs[0], self.streamed(n, vs[1]))
                self.write(st, ls[0], v, n, '<<')
                return one(v, ls[0])
            if op == '<<' or op == '>>':
                base = ls[0]
                if base is not None:
                    self.write(st, base, ('mut', 'operator' + op, vs[0], vs[1:]), n, op)
                    if op == '>>' and ls[1] is not None:
                        self.write(st, ls[1], ('out', self.fresh(), f, 1, ()), n, 'out')
                    return one(self.read(st, base), base)
                return one(('mut', 'operator' + op, vs[0], vs[1:]))
            if op is None and f.startswith('std::chrono::') and m in ('duration_cast', 'time_point_cast'):
                return one(('call', m, vs[0]))
            if f in ('std::sort', 'std::stable_sort') and len(vs) >= 2:
                # sorts the container the iterators point into
                v0, v1 = vs[0], vs[1]
                self.event(st, 'call', n, name=f, args=vs)
                if v0[0] == 'call' and v0[1] == 'begin' and v1[0] == 'call' and v1[1] == 'end' and v0[2] == v1[2]:
                    tgt = self.find_loc(n['a'][0], st)
                    if tgt is not None:
                        self.write(st, tgt, ('call', 'sorted', v0[2]) + vs[2:], n, 'sort')
                        return one(None)
                return None
            if f.startswith('std::') and m in ('equal', 'count', 'find', 'distance', 'abs', 'tie', 'hash', 'isprint', 'toupper', 'tolower', 'stoi', 'stoll', 'isspace', 'accumulate'):
                return one(('call', f) + vs)
            return None
        # ---- methods
        cls = f[:f.index('::operator ')] if '::operator ' in f else f.rsplit('::', 1)[0]
        if cls in STREAMS and ov is not None:
            if op == '<<' and self.is_text(ov):
                if vs[0][0] == 'fn':
                    return one(ov, objloc)
                self.event(st, 'app', n, loc=objloc, val=self.streamed(n, vs[0]))
                v = self.cat(ov, self.streamed(n, vs[0]))
                self.write(st, objloc, v, n, '<<')
                return one(v, objloc)
            if m in ('write', 'put') and self.is_text(ov):
                x = self.cut(vs, st)
                self.event(st, 'app', n, loc=objloc, val=x)
                v = self.cat(ov, x)
                self.write(st, objloc, v, n, '<<')
                return one(v, objloc)
            if m == 'flush':
                return one(ov, objloc)
            if m == 'str' and not vs:
                return one(ov)
        if m in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock') and cls.startswith('std::'):
            return self.model_lock(st, n, cls, m, objloc, ov)
        if cls == 'std::condition_variable' or cls == 'std::condition_variable_any':
            return self.model_cv(st, n, m, objloc, vs, ls)
        if cls in ('std::atomic', 'std::__atomic_base', 'std::__atomic_float', 'std::atomic_bool'):
            return self.model_atomic(st, n, m, op, objloc, ov, vs, ls)
        if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::optional', 'std::weak_ptr', 'std::__weak_ptr', 'std::_Optional_base_impl', 'std::future', 'std::function') :
            if m in ('operator bool', 'has_value'):
                return one(('op', '!=', NULL, ov))
            if m in ('get',) and cls != 'std::future':
                return one(ov)
            if m in ('operator->', ):
                return one(ov)
            if m in ('operator*', 'value'):
                l = self.deref(ov)
                return one(self.read(st, l), l)
            if m == 'operator[]':
                return one(None, ('ix', self.deref(ov), vs[0]))
            if m == 'reset':
                self.event(st, 'call', n, name=f, objloc=objloc, obj=ov, args=vs, arglocs=ls)
                self.write(st, objloc, vs[0] if vs else NULL, n, 'reset')
                return one(None)
            if m == 'release' :
                self.write(st, objloc, NULL, n, 'release')
                return one(ov)
            if m == 'operator=':
                self.write(st, objloc, vs[0], n, '=')
                return one(vs[0], objloc)
            if m == 'lock':
                return one(ov)
            if m == 'operator()' and cls == 'std::function':
                return self.call_value(st, ov, vs, ls, n)
            if m == 'value_or':
                return None
        if cls == 'std::initializer_list' and ov is not None and ov[0] == 'list':
            if m == 'begin':
                return one(('litp', ov))
            if m == 'end':
                return one(add(('litp', ov), C(len(ov[1]))))
            if m == 'size':
                return one(C(len(ov[1])))
        if m == 'operator=' and len(vs) == 1:
            v = vs[0]
            self.write(st, objloc, v, n, '=')
            return one(v, objloc)
        if m == 'assign' and len(vs) == 1:
            self.write(st, objloc, vs[0], n, '=')
            return one(vs[0], objloc)
        if cls in STRINGY or cls == 'std::basic_string' or cls == 'std::basic_string_view':
            if m in ('size', 'length'):
                return one(self.sizeof(ov))
            if m == 'empty':
                return one(self.cmp('==', self.sizeof(ov), ZERO))
            if m in ('c_str', 'ToString', 'str', 'operator std::string_view', 'operator basic_string_view', 'data', 'begin', 'cbegin'):
                if m in ('data',):
                    return one(('call', 'data', ov))
                if m in ('begin', 'cbegin'):
                    return one(('call', 'begin', ov))
                return one(ov)
            if m.startswith('operator std::'):
                return one(ov)
            if op == '+=' or m == 'push_back' and len(vs) == 1 or m == 'append' and (len(vs) == 1 or len(vs) == 2 and is_lenarg(n)):
                x = self.cut(vs, st)
                self.event(st, 'app', n, loc=objloc, val=x)
                v = self.cat(ov, x)
                self.write(st, objloc, v, n, '+=')
                return one(v, objloc)
            if m == 'clear':
                self.write(st, objloc, ('s', ''), n, 'clear')
                return one(None)
            if m == 'compare' and len(vs) in (1, 3):
                # zero when equal, negative when smaller
                part = ov if len(vs) == 1 else ('call', 'substr', ov, vs[0], vs[1])
                return one(sub(part, vs[-1]))
            if m in ('operator[]', 'at'):
                self.note_index(st, ('ix', objloc, vs[0]), n)
                l = ('ix', objloc, vs[0])
                return one(self.read(st, l), l)
            if m in ('back', 'front'):
                i = ZERO if m == 'front' else sub(self.sizeof(ov), C(1))
                l = ('ix', objloc, i)
                self.note_index(st, l, n)
                return one(self.read(st, l), l)
            if m == 'substr':
                return one(('call', 'substr', ov) + vs)
            if n.get('cm'):
                return one(('call', m, ov) + vs)
        if cls.startswith('std::') or cls.startswith('rocksdb::') or cls.startswith('__'):
            if m in ('size', 'length') and not vs:
                return one(self.sizeof(ov))
            if m == 'empty' and not vs:
                return one(self.cmp('==', self.sizeof(ov), ZERO))
            ismap = 'map' in cls
            if m in ('operator[]', 'at') and len(vs) == 1:
                l = ('ix', objloc, vs[0])
                if ismap and m == 'operator[]':
                    self.event(st, 'call', n, name=f, objloc=objloc, obj=ov, args=vs, arglocs=ls)
                    if not self.is_local(objloc):
                        self.event(st, 'write', n, loc=objloc, val=('mut', f, ov, vs), old=ov, info='operator[]')
                else:
                    self.note_index(st, l, n)
                return one(self.read(st, l), l)
            if m in ('front', 'back') and not vs:
                i = ZERO if m == 'front' else sub(self.sizeof(ov), C(1))
                l = ('ix', objloc, i)
                self.note_index(st, l, n)
                return one(self.read(st, l), l)
            if m in ITER_METHODS:
                return one(('call', m, ov) + vs)
            if m in ('operator*', 'operator->') and not vs:
                l = ('d', ov)
                if m == 'operator*':
                    return one(self.read(st, l), l)
                return one(ov)
            if m == 'operator bool' or m == 'operator!':
                v = ('call', cls + '::operator bool', ov)
                return one(v if m == 'operator bool' else ('op', '!', v))
            if m == 'time_since_epoch' or (cls == 'std::chrono::duration' and m == 'count'):
                return one(('call', m, ov))
            if op in ('++', '--'):
                if vs:   # postfix
                    old = ov
                    self.write(st, objloc, ('mut', 'operator' + op, ov, ()), n, op)
                    return one(old)
                v = ('mut', 'operator' + op, ov, ())
                if cls.startswith('std::atomic') or cls == 'std::__atomic_base':
                    v = add(ov, C(1 if op == '++' else -1))
                self.write(st, objloc, v, n, op)
                return one(v, objloc)
            if op in ('+=', '-='):
                v = self.binop(op[0], ov, vs[0])
                self.write(st, objloc, v, n, op)
                return one(v, objloc)
            if op in ('+', '-') and len(vs) == 1:
                return one(self.binop(op, ov, vs[0]))
            if (n.get('cm') or _const_like(n)) and not cls.startswith('rocksdb::DB') and cls != 'std::future':
                if cls.startswith('rocksdb::Status') or cls.startswith('rocksdb::Iterator') or cls.startswith('std::') or cls.startswith('rocksdb::Slice'):
                    return one(('call', f) + (ov,) + vs)
            if n.get('sm') or cls.endswith('_clock'):
                return None
            if m == 'swap' and len(vs) == 1 and ls[0] is not None:
                self.write(st, objloc, vs[0], n, 'swap')
                self.write(st, ls[0], ov, n, 'swap')
                return one(None)
            if m in ('reserve', 'shrink_to_fit') and cls in ('std::vector', 'std::basic_string', 'std::deque', 'std::unordered_map', 'std::unordered_set'):
                return one(None)
            if not n.get('cm') and (cls.startswith('std::')):
                if cls in ('std::future', 'std::promise', 'std::thread', 'std::basic_ostream', 'std::basic_ifstream', 'std::basic_ofstream', 'std::basic_istream'):
                    return None
                e = self.event(st, 'call', n, name=f, key=n.get('key'), objloc=objloc, obj=ov, args=vs, arglocs=ls)
                new = ('mut', f, ov, vs)
                rv = ('call', f, ov) + vs
                if m == 'clear':
                    new = ('ctor', cls, ())
                if m == 'resize' and len(vs) >= 1:
                    pass
                self.write(st, objloc, new, n, m)
                loc = None
                if m in ('emplace_back',) and n.get('rt', '').endswith('&'):
                    loc = ('ix', objloc, self.sizeof(ov))
                return one(rv, loc)
        return None

    @staticmethod
    def is_text(v):
        return v[0] not in ('mut', 'gv', 'ret', 'undef', 'c') and not (v[0] == 'ctor' and 'stream' in v[1] and (v[1] not in STREAMS or v[2]))

    def cut(self, vs, st=None):
        """the text given as (pointer, length), or as one value"""
        if len(vs) == 1:
            return vs[0]
        v, ln = vs[0], vs[1]
        if v[0] == 'addr' and st is not None:
            v = self.read(st, v[1])
        if v[0] == 'bytes' and v[2] == ln:
            return v
        if v[0] == 'call' and v[1] == 'data' and ln == ('call', 'size', v[2]):
            return v[2]
        if v[0] == 's' and is_num(ln) and ln[1] == len(v[1]):
            return v
        return ('text', v, ln)

    @staticmethod
    def streamed(n, v):
        k = n.get('key') or ''
        k = k[k.rfind('('):]
        if v[0] in ('s', 'cat'):
            return v
        if v[0] == 'c' and isinstance(v[1], int) and not isinstance(v[1], bool) and 'char' in k:
            return ('s', chr(v[1]))
        t = k.strip('()').split(',')[-1].strip()
        if t in ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short'):
            if v[0] == 'c':
                return ('s', str(v[1]))
            return ('call', 'std::to_string', v)
        if t in ('double', 'float', 'bool'):
            return ('call', 'fmt-' + t, v)
        return v

    def find_loc(self, node, st):
        """the container location of a begin() expression"""
        if isinstance(node, dict) and node.get('k') == 'call' and node.get('o') is not None and self.is_lv(node['o']):
            r = self.lval(st, node['o'])
            if len(r) == 1:
                return r[0][1]
        return None

    def model_lock(self, st, n, cls, m, objloc, ov):
        if cls in LOCK_TYPES:
            lk = st.mem.get(('lockof',) + objloc) if objloc[0] == 'var' else None
            if lk is None:
                return [(st, None, None)]
            if m == 'lock':
                self.acquire(st, lk[0], lk[1], objloc, n)
            elif m == 'unlock':
                self.release(st, lk[0], lk[1], objloc, n)
            return [(st, TRUE if m == 'try_lock' else None, None)]
        if m in ('lock', 'lock_shared'):
            self.acquire(st, objloc, 'w' if m == 'lock' else 'r', None, n)
        elif m in ('unlock', 'unlock_shared'):
            self.release(st, objloc, 'w' if m == 'unlock' else 'r', None, n)
        elif m == 'try_lock':
            v = ('ret', self.fresh(), 'try_lock', None, ())
            return [(st, v, None)]
        return [(st, None, None)]

    def model_cv(self, st, n, m, objloc, vs, ls):
        e = self.event(st, 'call', n, name='std::condition_variable::' + m, objloc=objloc, args=vs, arglocs=ls)
        if m.startswith('wait'):
            l = ls[0]
            lk = st.mem.get(('lockof',) + l) if l is not None and l[0] == 'var' else None
            if lk is not None:
                self.release(st, lk[0], lk[1], l, n)
                self.acquire(st, lk[0], lk[1], l, n)
            for v in vs[1:]:
                if v[0] == 'lam' and v in getattr(self, 'lams', {}):
                    r = self.call_lambda(st, v, (), (), n)
                    if len(r) >= 1:
                        out = []
                        for s, pv, _ in r:
                            if m == 'wait':
                                ts, fs = self.branch(s, pv, n)
                                out += [(x, None, None) for x in ts]
                            else:
                                out.append((s, pv, None))
                        return out
            return [(st, ('ret', e.n, e.name, None, ()), None)]
        return [(st, None, None)]

    def model_atomic(self, st, n, m, op, objloc, ov, vs, ls):
        if m in ('load',) or m.startswith('operator ') :
            return [(st, ov, None)]
        if m in ('store', 'operator='):
            self.event(st, 'call', n, name='std::atomic::store', objloc=objloc, obj=ov, args=vs, arglocs=ls)
            self.write(st, objloc, vs[0], n, 'atomic')
            return [(st, vs[0], None)]
        if op in ('++', '--'):
            new = add(ov, C(1 if op == '++' else -1))
            self.write(st, objloc, new, n, op)
            return [(st, ov if vs else new, None)]
        if op in ('+=', '-='):
            new = self.binop(op[0], ov, vs[0])
            self.write(st, objloc, new, n, op)
            return [(st, new, None)]
        if m in ('fetch_add', 'fetch_sub'):
            new = self.binop('+' if m == 'fetch_add' else '-', ov, vs[0])
            self.write(st, objloc, new, n, m)
            return [(st, ov, None)]
        if m == 'exchange':
            self.write(st, objloc, vs[0], n, m)
            return [(st, ov, None)]
        if m.startswith('compare_exchange'):
            t = truth(('op', '==', ov, vs[0]))
            out = []
            for f in st.facts.with_(t):
                s = st.fork()
                s.facts = f
                self.write(s, objloc, vs[1], n, 'cas')
                out.append((s, TRUE, None))
            s = st.fork()
            if ls[0] is not None:
                self.set(s, ls[0], ov)
            out.append((s, FALSE, None))
            return out
        return None


def _value_ctor(b):
    return b in ('std::vector', 'std::map', 'std::set', 'std::list', 'std::deque', 'std::pair', 'std::tuple', 'std::multimap', 'std::queue',
                 'std::chrono::duration', 'std::chrono::time_point', 'std::allocator', 'rocksdb::WriteOptions', 'rocksdb::ReadOptions', 'rocksdb::Status',
                 'rocksdb::WriteBatch', 'std::initializer_list', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::unordered_map', 'std::error_code',
                 'rocksdb::Options', 'rocksdb::BlockBasedTableOptions', 'std::promise', 'std::future')
