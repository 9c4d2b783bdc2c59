"""The resolved program: functions, records, enums, globals, call graph and mod sets."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import extract as _x


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot give an answer: error exit, never a verdict."""


def walk(n):
    """all dict nodes below n, pre-order"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            for k, v in reversed(list(x.items())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    stack.append(v)


MUTEX_TYPES = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::shared_timed_mutex', 'std::timed_mutex')
LOCK_TYPES = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')


def base_type(t):
    t = t or ''
    if t.startswith('const '):
        t = t[6:]
    t = t.rstrip('&').rstrip()
    i = t.find('<')
    return t[:i] if i >= 0 else t


def ptr_var(n):
    """a pointer variable handed over by value: the callee cannot change the variable itself
    (character buffers stay modelled through the variable that names them)"""
    if not isinstance(n, dict) or n.get('k') not in ('ref', 'mem'):
        return False
    t = n.get('t') or ''
    return t.endswith('*') and not t.endswith('char*') and not t.endswith('void*')


# std methods that change their object; everything const is pure
class Program:
    def __init__(self):
        recs, self.stats = _x.extract()
        self.fn = {}
        self.byname = {}
        self.rec = {}
        self.recbyname = {}
        self.enum = {}
        self.glob = {}
        self.tus = []
        for r in recs:
            R = r['R']
            if R == 'fn':
                if r['key'] in self.fn:
                    continue
                self.fn[r['key']] = r
                self.byname.setdefault(r['name'], []).append(r)
            elif R == 'rec':
                self.rec[r['t']] = r
                self.recbyname.setdefault(r['name'], []).append(r)
            elif R == 'enum':
                self.enum[r['name']] = r
            elif R == 'glob':
                e = r.get('e')
                if isinstance(e, dict) and e.get('k') == 'ctor' and e.get('c') in ('std::string', 'std::string_view') and e.get('a') and e['a'][0].get('k') == 'str' and all(a.get('k') == 'ctor' for a in e['a'][1:]):
                    r = dict(r, e=dict(e['a'][0]))
                self.glob[r['name']] = r
            elif R == 'tu':
                self.tus.append(r)
        self.enumval = {}
        for e in self.enum.values():
            for n, v in e['vals']:
                self.enumval[n] = v
        self.bad_tus = [t['file'] for t in self.tus if not t['ok']]
        self.overriders = {}
        for f in self.fn.values():
            for o in f.get('over', ()):
                self.overriders.setdefault(o, set()).add(f['key'])
        # method keys overridden anywhere (transitively)
        self._mod = None
        self._calls = {}
        self._sz = {}
        self.fieldtype = {}
        for r in self.rec.values():
            for fl in r['fields']:
                self.fieldtype[fl['n']] = fl['t']

    # -- lookup -----------------------------------------------------------
    def fns(self, name):
        return self.byname.get(name, [])

    def one(self, name, nparams=None, pred=None):
        c = self.fns(name)
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            raise AnalysisBroken('anchor %s not found in the resolved program' % name)
        return c[0]

    def methods(self, cls):
        return [f for f in self.fn.values() if f.get('cls') == cls]

    def size(self, key):
        s = self._sz.get(key)
        if s is None:
            s = sum(1 for _ in walk(self.fn[key]['body'])) if key in self.fn else 10 ** 9
            self._sz[key] = s
        return s

    # -- call graph -------------------------------------------------------
    def callees(self, key):
        """keys called directly (constructors, lambda bodies and virtual targets included)"""
        c = self._calls.get(key)
        if c is not None:
            return c
        c = []
        f = self.fn.get(key)
        if f:
            roots = [f['body']] + [i['e'] for i in f.get('inits', ())]
            for r in roots:
                for n in walk(r):
                    if n.get('k') in ('call', 'ctor', 'fn') and 'key' in n:
                        c.append((n['key'], n))
                        if n.get('vm') and not n.get('ql'):
                            for o in self.all_overriders(n['key']):
                                c.append((o, n))
                    elif n.get('k') == 'copy' and n.get('up'):
                        c.append((n['key'], n))
        self._calls[key] = c
        return c

    def all_overriders(self, key):
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            for o in self.overriders.get(k, ()):
                if o not in out:
                    out.add(o)
                    todo.append(o)
        return out

    def reach(self, key, stop=lambda k: False):
        seen, todo = {key}, [key]
        while todo:
            k = todo.pop()
            for c, _ in self.callees(k):
                if c not in seen and c in self.fn and not stop(c):
                    seen.add(c)
                    todo.append(c)
        return seen

    # -- mod sets ---------------------------------------------------------
    def modset(self, key):
        """names of fields and globals a call may write, transitively"""
        if self._mod is None:
            self._compute_mod()
        return self._mod.get(key, frozenset())

    def _compute_mod(self):
        direct = {k: self.direct_mods(f['body'], f)[1] | set(i['f'] for i in f.get('inits', ()) if 'f' in i and False) for k, f in self.fn.items()}
        mod = {k: set(v) for k, v in direct.items()}
        # constructors only write the new object
        changed = True
        order = list(self.fn)
        while changed:
            changed = False
            for k in order:
                m = mod[k]
                n0 = len(m)
                for c, _ in self.callees(k):
                    if c in mod and c != k:
                        m |= mod[c]
                if len(m) != n0:
                    changed = True
        self._mod = {k: frozenset(v) for k, v in mod.items()}

    def lval_roots(self, n, out_vars, out_fields):
        """what a write through expression n may change"""
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'ref':
                if n.get('st') == 'g':
                    out_fields.add(n['n'])
                else:
                    out_vars.add(n['id'])
                return
            if k == 'mem':
                out_fields.add(n['f'])
                # writing a member of a local struct also changes the local
                path, inside = [n['f']], not n.get('ar')
                n = n['b']
                while isinstance(n, dict) and n.get('k') in ('mem',):
                    path.insert(0, n['f'])
                    inside = inside and not n.get('ar')
                    n = n['b']
                if isinstance(n, dict) and n.get('k') == 'ref' and n.get('st') != 'g':
                    out_vars.add((n['id'], tuple(path)) if inside else n['id'])
                elif isinstance(n, dict) and n.get('k') == 'call':
                    if n.get('o'):
                        self.lval_roots(n['o'], out_vars, out_fields)
                return
            if k in ('idx',):
                n = n['b']
                continue
            if k == 'un' and n['op'] in ('*', '&', '++', '--'):
                n = n['e']
                continue
            if k == 'call':
                f = n.get('f', '')
                if n.get('o') is not None:
                    n = n['o']
                    continue
                pm = n.get('pm') or ()
                for i, a in enumerate(n.get('a', ())):
                    # a result written through refers to an argument passed by reference or pointer
                    if i >= len(pm) or pm[i] in ('r', 'p', 'm'):
                        self.lval_roots(a, out_vars, out_fields)
                return
            if k in ('cast', 'copy'):
                n = n['e']
                continue
            if k == 'cond':
                self.lval_roots(n['a'], out_vars, out_fields)
                n = n['b']
                continue
            return

    def direct_mods(self, root, f=None):
        vs, fs = set(), set()
        for n in walk(root):
            k = n.get('k')
            if k == 'asg':
                self.lval_roots(n['a'], vs, fs)
            elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
                self.lval_roots(n['e'], vs, fs)
            elif k == 'call':
                if n.get('o') is not None and not n.get('cm') and not n.get('sm'):
                    if not _const_like(n):
                        # a repository method with a known body reports its own effects
                        if not (n.get('rp') and n.get('key') in self.fn and not n.get('vm')):
                            self.lval_roots(n['o'], vs, fs)
                        else:
                            self._local_obj(n['o'], vs)
                for a, m in zip(n.get('a', ()), n.get('pm', ())):
                    if m == 'r' or (m == 'p' and not ptr_var(a)):
                        self.lval_roots(a, vs, fs)
                    elif m == 'm' and isinstance(a, dict) and a.get('k') == 'call' and a.get('f') == 'std::move':
                        self.lval_roots(a['a'][0], vs, fs)
                if n.get('f') in ('std::atomic_store',):
                    self.lval_roots(n['a'][0], vs, fs)
            elif k == 'ctor':
                for a, m in zip(n.get('a', ()), n.get('pm', ())):
                    if (m == 'r' or (m == 'p' and not ptr_var(a))) and base_type(n.get('c', '')) not in LOCK_TYPES:
                        self.lval_roots(a, vs, fs)
            elif k == 'copy' and n.get('mv'):
                e = n['e']
                if isinstance(e, dict) and e.get('k') == 'call' and e.get('f') == 'std::move':
                    self.lval_roots(e['a'][0], vs, fs)
            elif k == 'delete':
                pass
        return vs, fs

    def escapes(self, f, pid):
        """the parameter may be written through another name"""
        if f.get('ctor') or f['ret'].endswith('&') and not f['ret'].startswith('const') or f['ret'].endswith('*'):
            return True

        def rooted(e):
            vs = set()
            self.lval_roots(e, vs, set())
            return any(v == pid or isinstance(v, tuple) and v[0] == pid for v in vs)
        for n in walk(f['body']):
            t = n.get('t')
            if isinstance(t, str) and t.endswith(('&', '*')) and not t.startswith('const') and n.get('e') and rooted(n['e']):
                return True
            k = n.get('k')
            if k == 'rfor' and rooted(n['r']) and not str((n.get('v') or {}).get('t', '')).startswith('const'):
                return True
            if k == 'un' and n['op'] == '&' and rooted(n['e']):
                return True
            if k == 'lam':
                return True
        return False

    def _local_obj(self, n, vs):
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'ref' and n.get('st') != 'g':
                vs.add(n['id'])
                return
            if k == 'mem':
                n = n['b']
            elif k in ('idx',):
                n = n['b']
            elif k == 'un':
                n = n['e']
            elif k == 'call' and n.get('o') is not None:
                n = n['o']
            else:
                return


def _const_like(n):
    """non-const std methods that do not change the logical value of their object"""
    f = n.get('f', '')
    m = f.rsplit('::', 1)[-1]
    if f.startswith('std::'):
        if m in ('begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'data', 'at', 'front', 'back',
                 'operator->', 'operator*', 'get', 'c_str', 'operator[]', 'equal_range', 'count', 'size', 'empty', 'load',
                 'lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock', 'wait', 'wait_for', 'wait_until', 'notify_all', 'notify_one', 'native_handle', 'owns_lock', 'joinable'):
            if m == 'operator[]' and ('map' in f):
                return False
            return True
    return False
