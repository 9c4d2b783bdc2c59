"""Symbolic values (interned tuples), linear normal forms, and the fact domain:
equalities, disequalities and difference bounds over symbolic values."""

TRUE = ('c', True)
FALSE = ('c', False)
NULL = ('null',)
ZERO = ('c', 0)


def C(x):
    return ('c', x)


def is_num(v):
    return v[0] == 'c' and isinstance(v[1], (int, bool)) and not isinstance(v[1], float)


# ---------------------------------------------------------------- linear forms
def to_lin(v):
    """(const, {term: coef})"""
    if v[0] == 'c' and isinstance(v[1], (int, bool)):
        return int(v[1]), {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    if v[0] == 'null':
        return 0, {}
    return 0, {v: 1}


def from_lin(c, t):
    t = {k: x for k, x in t.items() if x != 0}
    if not t:
        return ('c', c)
    if c == 0 and len(t) == 1:
        (k, x), = t.items()
        if x == 1:
            return k
    return ('lin', c, tuple(sorted(t.items(), key=lambda p: (repr(p[0]), p[1]))))


def add(a, b, kb=1):
    ca, ta = to_lin(a)
    cb, tb = to_lin(b)
    t = dict(ta)
    for k, x in tb.items():
        t[k] = t.get(k, 0) + kb * x
    return from_lin(ca + kb * cb, t)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    ca, ta = to_lin(a)
    cb, tb = to_lin(b)
    if not ta:
        return from_lin(ca * cb, {k: x * ca for k, x in tb.items()})
    if not tb:
        return from_lin(ca * cb, {k: x * cb for k, x in ta.items()})
    return ('op', '*') + tuple(sorted((a, b), key=repr))


# ---------------------------------------------------------------- conditions
# a literal is ('le', T, c): T <= c | ('eq', T, c) | ('ne', T, c)   with T a linear form without constant (or a plain term)
def _split(v):
    """v - const, const"""
    c, t = to_lin(v)
    # canonical sign: the smallest term gets a positive coefficient
    return c, t


def _canon(t):
    """tuple form and sign"""
    items = sorted(t.items(), key=lambda p: repr(p[0]))
    if not items:
        return None, 1
    s = 1 if items[0][1] > 0 else -1
    return tuple((k, x * s) for k, x in items), s


def lit_le(a, b):
    """a <= b"""
    d = sub(a, b)
    c, t = to_lin(d)
    if not t:
        return c <= 0
    key, s = _canon(t)
    if s > 0:
        return ('le', key, -c)       # key <= -c
    return ('ge', key, c)            # -key + c <= 0  -> key >= c


def lit_eq(a, b):
    if a == b:
        return True
    if _distinct(a, b):
        return False
    d = sub(a, b)
    c, t = to_lin(d)
    if not t:
        return c == 0
    key, s = _canon(t)
    return ('eq', key, -c * s)


def neg(l):
    if l is True:
        return False
    if l is False:
        return True
    op, k, c = l
    if op == 'le':
        return ('ge', k, c + 1)
    if op == 'ge':
        return ('le', k, c - 1)
    if op == 'eq':
        return ('ne', k, c)
    return ('eq', k, c)


_CONSTK = ('s', 'e', 'c', 'null', 'new', 'addr', 'fn', 'g!')


def _distinct(a, b):
    """surely different values"""
    if a[0] in ('s',) and b[0] == 's':
        return a != b
    if a[0] == 'e' and b[0] == 'e':
        return a != b
    if a[0] == 'null' and b[0] in ('new', 'addr', 'fn', 'lam', 'this') or b[0] == 'null' and a[0] in ('new', 'addr', 'fn', 'lam', 'this'):
        return True
    if a[0] == 'new' and b[0] == 'new':
        return a != b
    if a[0] == 'c' and b[0] == 'c':
        return a[1] != b[1]
    if a[0] == 's' and b[0] == 'c' or a[0] == 'c' and b[0] == 's':
        return True
    return False


# boolean expression values
def truth(v):
    """condition value -> literal, True/False, or a compound ('and'|'or', x, y)"""
    k = v[0]
    if k == 'c':
        return bool(v[1])
    if k == 'null':
        return False
    if k in ('s', 'new', 'addr', 'fn', 'lam', 'this'):
        return True
    if k == 'op':
        o = v[1]
        if o == '!':
            return tneg(truth(v[2]))
        if o == '==':
            return _eqv(v[2], v[3])
        if o == '!=':
            return tneg(_eqv(v[2], v[3]))
        if o == '<':
            return lit_le(add(v[2], C(1)), v[3])
        if o == '<=':
            return lit_le(v[2], v[3])
        if o == '>':
            return lit_le(add(v[3], C(1)), v[2])
        if o == '>=':
            return lit_le(v[3], v[2])
        if o in ('&&', '||'):
            a, b = truth(v[2]), truth(v[3])
            if o == '&&':
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
                return ('and', a, b)
            if a is True or b is True:
                return True
            if a is False:
                return b
            if b is False:
                return a
            return ('or', a, b)
    l = lit_eq(v, ZERO)
    return tneg(l)


def tneg(t):
    if t is True or t is False:
        return not t
    if t[0] == 'and':
        return ('or', tneg(t[1]), tneg(t[2]))
    if t[0] == 'or':
        return ('and', tneg(t[1]), tneg(t[2]))
    return neg(t)


def _boolish(v):
    return v[0] == 'c' and isinstance(v[1], bool)


def _eqv(a, b):
    if _boolish(b):
        t = truth(a)
        return t if b[1] else tneg(t)
    if _boolish(a):
        t = truth(b)
        return t if a[1] else tneg(t)
    return lit_eq(a, b)


INF = 1 << 66


def nonneg(t):
    return t[0] == 'call' and t[1] in ('size',)


ENUMS = {}          # enumerator -> all enumerators of its type


class Facts:
    """conjunction of literals, persistent (cons list)"""
    __slots__ = ('prev', 'lit', 'n', '_set', '_graph', '_orig')

    def __init__(self, prev=None, lit=None):
        self.prev = prev
        self.lit = lit
        self.n = prev.n + 1 if prev is not None else 0
        self._set = None
        self._graph = None

    def all(self):
        if self._set is None:
            out = []
            f = self
            while f is not None and f.lit is not None:
                out.append(f.lit)
                f = f.prev
            out.reverse()
            self._set = out
        return self._set

    def graph(self):
        """difference graph: edges[x] = [(y, w)] meaning y - x <= w ; node 0 is zero"""
        if self._graph is not None:
            return self._graph
        edges = {}
        uf = {}
        ne = {}
        terms = set()

        def edge(x, y, w):
            # y - x <= w
            edges.setdefault(x, {})
            old = edges[x].get(y)
            if old is None or old > w:
                edges[x][y] = w

        def nodes(key):
            if len(key) == 1 and key[0][1] == 1:
                return key[0][0], 0
            if len(key) == 2 and key[0][1] == 1 and key[1][1] == -1:
                return key[0][0], key[1][0]
            return ('lin', 0, key), 0

        for l in self.all():
            if l[0] in ('and', 'or'):
                continue
            op, key, c = l
            p, q = nodes(key)
            terms.add(p)
            terms.add(q)
            # p - q op c
            if op in ('le', 'eq'):
                edge(q, p, c)
            if op in ('ge', 'eq'):
                edge(p, q, -c)
            if op == 'ne':
                ne.setdefault((p, q), set()).add(c)
                ne.setdefault((q, p), set()).add(-c)
        for t in terms:
            if t != 0 and nonneg(t):
                edge(t, 0, 0)
        # constants: numeric enum / string constants are distinct terms; nothing to add
        self._graph = (edges, ne, nodes, terms)
        return self._graph

    def bound(self, q, p):
        """least w with p - q <= w, or INF (Bellman-Ford from q)"""
        edges, ne, nodes, terms = self.graph()
        if p == q:
            return 0
        dist = {q: 0}
        extra = None
        if q != 0 and nonneg(q) and q not in edges:
            dist[0] = 0
        work = list(dist)
        n = 0
        while work and n < 4000:
            n += 1
            x = work.pop(0)
            dx = dist[x]
            es = edges.get(x)
            if es:
                for y, w in es.items():
                    if dx + w < dist.get(y, INF):
                        dist[y] = dx + w
                        work.append(y)
        # q -> p where p is a size term: no upper bound from that
        return dist.get(p, INF)

    def entails(self, t):
        """does the conjunction imply t"""
        if t is True:
            return True
        if t is False:
            return self.inconsistent()
        if t[0] == 'and':
            return self.entails(t[1]) and self.entails(t[2])
        if t[0] == 'or':
            if self.entails(t[1]) or self.entails(t[2]):
                return True
            for l in self.all():
                if l == t:
                    return True
            return False
        op, key, c = t
        if t in self.all():
            return True
        edges, ne, nodes, terms = self.graph()
        p, q = nodes(key)
        if op == 'le':
            b = self.bound(q, p)
            if b <= c:
                return True
            if b == c + 1 and self._ne(p, q, b):
                return True
            return self._combine(dict(key), c)
        if op == 'ge':
            b = self.bound(p, q)
            if b <= -c:
                return True
            if b == -c + 1 and self._ne(q, p, b):
                return True
            return self._combine({k: -x for k, x in key}, -c)
        if op == 'eq':
            if self.bound(q, p) <= c and self.bound(p, q) <= -c:
                return True
            if c == 0:
                for a, b in ((p, q), (q, p)):
                    if a != 0 and a[0] == 'e' and b != 0 and b[0] != 'e':
                        # every other enumerator is excluded
                        sib = ENUMS.get(a[1])
                        if sib and all(x == a[1] or self._ne(b, ('e', x), 0) for x in sib):
                            return True
            return False
        if op == 'ne':
            if self._ne(p, q, c):
                return True
            if self.bound(q, p) < c or self.bound(p, q) < -c:
                return True
            return self._const_distinct(p, q, c)
        return False

    def _small(self, g, c):
        """g <= c for a form of at most two terms"""
        g = {k: x for k, x in g.items() if x}
        if not g:
            return c >= 0
        if any(abs(x) != 1 for x in g.values()) or len(g) > 2:
            return False
        pos = [k for k, x in g.items() if x == 1]
        neg_ = [k for k, x in g.items() if x == -1]
        if len(pos) > 1 or len(neg_) > 1:
            return False
        return self.bound(neg_[0] if neg_ else 0, pos[0] if pos else 0) <= c

    def _combine(self, g, c):
        """g <= c as the sum of one known inequality of several terms and a difference bound"""
        forms = []
        for l in self.all():
            if l[0] in ('le', 'ge', 'eq') and (len(l[1]) > 2 or len(g) > 2):
                if l[0] in ('le', 'eq'):
                    forms.append((dict(l[1]), l[2]))
                if l[0] in ('ge', 'eq'):
                    forms.append(({k: -x for k, x in l[1]}, -l[2]))
        for t in g:
            if nonneg(t):
                forms.append(({t: -1}, 0))
        for f, k in forms:
            if not any(g.get(t, 0) * x > 0 for t, x in f.items()):
                continue
            r = dict(g)
            for t, x in f.items():
                r[t] = r.get(t, 0) - x
            r = {t: x for t, x in r.items() if x}
            if self._small(r, c - k) or any(f2 == r and k2 <= c - k for f2, k2 in forms):
                return True
        return False

    def _ne(self, p, q, c):
        edges, ne, nodes, terms = self.graph()
        if c in ne.get((p, q), ()):
            return True
        # through equal terms
        eqp = self.equals(p)
        eqq = self.equals(q)
        for x, dx in eqp:
            for y, dy in eqq:
                # x = p + dx, y = q + dy : x - y = c + dx - dy
                if (c + dx - dy) in ne.get((x, y), ()):
                    return True
                if c + dx - dy == 0 and x != 0 and y != 0 and _distinct(x, y):
                    return True
        return False

    def _const_distinct(self, p, q, c):
        return self._ne(p, q, c)

    def equals(self, p):
        """[(x, d)]: x = p + d for all terms known equal up to a constant"""
        edges, ne, nodes, terms = self.graph()
        out = [(p, 0)]
        seen = {p}
        i = 0
        while i < len(out):
            x, d = out[i]
            i += 1
            for y, w in edges.get(x, {}).items():
                if y in seen:
                    continue
                back = edges.get(y, {}).get(x)
                if back is not None and back == -w:
                    seen.add(y)
                    out.append((y, d + w))
        return out

    def inconsistent(self):
        edges, ne, nodes, terms = self.graph()
        # negative cycle?
        for x in list(edges):
            for y, w in edges[x].items():
                if self.bound(y, x) + w < 0:
                    return True
        return False

    def refutes(self, t):
        return self.entails(tneg(t))

    def with_(self, t):
        """list of fact sets for (self and t); [] when contradictory"""
        if t is True:
            return [self]
        if t is False:
            return []
        if t[0] == 'and':
            out = []
            for f in self.with_(t[1]):
                out += f.with_(t[2])
            return out
        if t[0] == 'or':
            # keep it as one disjunctive fact unless one side is refuted
            if self.refutes(t[1]):
                return self.with_(t[2])
            if self.refutes(t[2]):
                return self.with_(t[1])
            out = self.with_(t[1])
            for f in self.with_(tneg(t[1])):
                out += f.with_(t[2])
            return out
        if self.entails(t):
            return [self]
        if self.refutes(t):
            return []
        f = Facts(self, t)
        return [f]

    def eqv(self, a, b):
        """are values a and b known equal"""
        if a is None or b is None:
            return False
        if a == b:
            return True
        l = lit_eq(a, b)
        return self.entails(l)


EMPTY = Facts()


# ---------------------------------------------------------------- printing
def show(v, d=0):
    if d > 6:
        return '…'
    if v is None:
        return '-'
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return '()'
    k = v[0]
    s = lambda x: show(x, d + 1)
    try:
        if k == 'c':
            return str(v[1])
        if k == 's':
            return repr(v[1])
        if k == 'e':
            return v[1].split('::')[-1]
        if k == 'null':
            return 'null'
        if k == 'this':
            return 'this'
        if k == 'p':
            return v[1]
        if k == 'init':
            return s(v[1]) + '₀'
        if k == 'f':
            return s(v[1]) + '.' + v[2].split('::')[-1]
        if k == 'd':
            return '*' + s(v[1]) if v[1] != ('this',) else 'this'
        if k == 'g':
            return v[1]
        if k == 'gv':
            return v[1]
        if k == 'var':
            return 'v%s' % v[1]
        if k == 'ix':
            return s(v[1]) + '[' + s(v[2]) + ']'
        if k == 'lin':
            o = ' + '.join((('%d*' % x) if x != 1 else '') + s(t) for t, x in v[2])
            return '(' + o + (' + %d' % v[1] if v[1] else '') + ')'
        if k == 'op':
            return '(' + v[1] + ' ' + ', '.join(s(x) for x in v[2:]) + ')'
        if k == 'call':
            return v[1].split('::')[-1] + '(' + ', '.join(s(x) for x in v[2:]) + ')'
        if k == 'ret':
            return '%s#%d' % (v[2].split('::')[-1], v[1])
        if k == 'mut':
            return s(v[2]) + '.' + v[1].split('::')[-1] + '(' + ', '.join(s(x) for x in v[3]) + ')'
        if k == 'ctor':
            return v[1].split('::')[-1] + '{' + ', '.join(s(x) for x in v[2]) + '}'
        if k == 'cat':
            return ' ++ '.join(s(x) for x in v[1])
        if k == 'hav':
            return '?%d(%s)' % (v[1], s(v[2]))
        if k == 'lam':
            return 'λ'
        return '<' + ' '.join(s(x) if isinstance(x, tuple) else str(x) for x in v) + '>'
    except Exception:
        return repr(v)


def show_lit(l):
    if l is True or l is False:
        return str(l)
    if l[0] in ('and', 'or'):
        return '(' + show_lit(l[1]) + ' ' + l[0] + ' ' + show_lit(l[2]) + ')'
    op, key, c = l
    t = ' + '.join((('%d*' % x) if x != 1 else '') + show(k) for k, x in key)
    return '%s %s %d' % (t, {'le': '<=', 'ge': '>=', 'eq': '==', 'ne': '!='}[op], c)


def parts(v):
    """flatten a value into all sub-values (pre-order)"""
    out = []
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(x)
            for y in x:
                if isinstance(y, tuple):
                    st.append(y)
    return out


def contains(v, w):
    if v == w:
        return True
    if isinstance(v, tuple):
        for y in v:
            if isinstance(y, tuple) and contains(y, w):
                return True
    return False
