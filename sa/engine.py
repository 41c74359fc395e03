"""A disjunctive abstract interpreter for the resolved C++ AST.

Domain.  An abstract state maps abstract locations to abstract values.  A value is a constant, a pointer to an abstract
location, a closure, or a term over opaque symbols; every symbol may carry a finite set of the values it can still have
(enumerations, booleans, character classes, ...).  A branch on a term splits the state by splitting that finite set; a
branch on a term without a finite set goes both ways and records the outcome, so that the same term tested again is
decided alike.  Loops are solved as a fixpoint over the set of states at the loop head; states are garbage collected
and merged when equal.  Nothing is executed and no solver is involved.

Rules plug in by (a) modelling callees (`model`), (b) a monitor value carried in every state (`st.mon`), and (c) hooks.
"""
import sys

from .ir import AnalysisBroken, walk
from .stdmodel import strip_targs

sys.setrecursionlimit(20000)

NULL = ('null',)
UNINIT = ('uninit',)
VOID = ('void',)


def is_const(v):
    return isinstance(v, (int, float)) or v == NULL or (isinstance(v, tuple) and v[0] == 'str')


def syms(v, out=None):
    """Base symbols occurring in a value."""
    if out is None:
        out = []
    if isinstance(v, tuple) and v:
        if v[0] == 's':
            if v not in out:
                out.append(v)
            # symbols nested in names of derived symbols do not count
        elif v[0] == 'op':
            for a in v[2:]:
                syms(a, out)
        elif v[0] == 'some':
            syms(v[1], out)
    return out


def mentions(v, s):
    if v == s:
        return True
    if isinstance(v, (tuple, frozenset)):
        return any(mentions(x, s) for x in v)
    return False


def subst(v, s, r):
    if v == s:
        return r
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and (x == s or mentions(x, s)):
                return tuple(subst(x, s, r) for x in v)
    return v


class State:
    __slots__ = ('mem', 'dom', 'mon', 'trace', '_key')

    def __init__(self):
        self.mem = {}
        self.dom = {}
        self.mon = None
        self.trace = None
        self._key = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.dom = dict(self.dom)
        s.mon = self.mon
        s.trace = self.trace
        s._key = None
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.dom.items()), self.mon)

    def set(self, loc, val):
        s = self.copy()
        s.mem[loc] = val
        return s

    def withmon(self, mon):
        s = self.copy()
        s.mon = mon
        return s

    def note(self, text):
        s = self.copy()
        s.trace = (self.trace, text)
        return s

    def notes(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def dedupe(states):
    if len(states) < 2:
        return states if isinstance(states, list) else list(states)
    seen = {}
    for s in states:
        k = s.key()
        if k not in seen:
            seen[k] = s
    return list(seen.values())


def dedupe2(pairs):
    if len(pairs) < 2:
        return pairs if isinstance(pairs, list) else list(pairs)
    seen = {}
    for v, s in pairs:
        k = (v, s.key())
        if k not in seen:
            seen[k] = (v, s)
    return list(seen.values())


def targs_of(T):
    """The top-level template arguments of a type, as written."""
    t = (T or {}).get('canon') or (T or {}).get('s') or ''
    i = t.find('<')
    if i < 0:
        return []
    parts, d, cur = [], 0, ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return parts + [cur.strip()]


class Frame:
    __slots__ = ('fn', 'env', 'this', 'depth', 'parent', 'labels', 'fid', 'this_cls')

    def __init__(self, fn, depth, this=None, parent=None, this_cls=None):
        self.fn = fn
        self.env = {}
        self.this = this
        self.depth = depth
        self.parent = parent
        self.this_cls = this_cls


class Thrown:
    __slots__ = ('typ', 'val', 'node', 'fn')

    def __init__(self, typ, val, node, fn):
        self.typ, self.val, self.node, self.fn = typ, val, node, fn


class Limit(AnalysisBroken):
    pass


STD_EXC = {
    'std::exception': [], 'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception'],
    'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'],
    'std::domain_error': ['std::logic_error'], 'std::length_error': ['std::logic_error'],
    'std::bad_alloc': ['std::exception'], 'std::system_error': ['std::runtime_error'],
    'std::ios_base::failure': ['std::system_error'], 'std::bad_optional_access': ['std::exception'],
}

VALUE_CLASSES = ('std::',)


def lam_name(s):
    i = s.find('(lambda at ')
    return s[i:] if i >= 0 else None


class Engine:
    MAX_STATES = 4000      # per loop head
    MAX_DEPTH = 60
    WIDEN = 24             # distinct constants of one location at a loop head before it is widened

    def __init__(self, prog):
        self.P = prog
        self.models = {}          # qualified callee name -> handler
        self.model_pred = []      # (predicate(q, node) , handler)
        self.opaque = set()       # qualified names never inlined
        self.inline_pred = None   # optional: decides whether a repo function is inlined
        self.sinks = [[]]         # collected exceptional states
        self.obligations = 0
        self.visited_funcs = set()
        self.visited_sites = set()
        self.unknown = {}         # unmodelled constructs seen
        self.stack = []           # call stack of function keys
        self.throw_hook = None    # callee, node, st -> list of exception type names an opaque call may raise
        self.dtor_models = {}     # class name -> handler(engine, st, loc, fr) -> states
        self.branch_hook = None
        self.null_hook = None
        self.expr_hook = None     # (node, st, fr) -> None or list[(val, st)]
        self.stmt_hook = None
        self.domain_hook = None   # (type, loc) -> frozenset or None
        self.virt_hook = None     # (node, objloc, st, fr) -> list of Func or None
        self.write_hook = None    # (loc, val, st, node, fr) -> st
        self.assume_insist = True
        self.steps = 0
        self.step_limit = 40_000_000
        self.inline_dtors = set()
        self.obj_std = set()      # library classes treated as objects (with locations of their parts)
        self.oob_hook = None      # access outside a container of known size
        self.ret_hook = None
        self._gcn = 0
        self._splitc = {}
        from . import stdmodel
        stdmodel.install(self)

    # ------------------------------------------------------------------------------------------------ models
    def model(self, *names):
        def deco(h):
            for n in names:
                self.models[n] = h
            return h
        return deco

    def note_unknown(self, what, fr, node):
        self.unknown.setdefault(what, fr.fn.loc(node))

    # ------------------------------------------------------------------------------------------------ symbols
    def fresh(self, st, name, dom=None):
        """A fresh symbol.  Older values with the same name are renamed, so that they stay distinct."""
        s = ('s', name)
        used = s in st.dom
        if not used:
            for l, v in st.mem.items():
                if mentions(v, s) or mentions(l, s):
                    used = True
                    break
            if not used and st.mon is not None and mentions(st.mon, s):
                used = True
        if used:
            st = st.copy()
            n = 1
            r = ('s', ('old', 1, name))
            while r in st.dom or any(mentions(v, r) or mentions(l, r) for l, v in st.mem.items()) or \
                    (st.mon is not None and mentions(st.mon, r)):
                n += 1
                r = ('s', ('old', n, name))
            mem = {}
            for l, v in st.mem.items():
                if mentions(l, s):
                    l = subst(l, s, r)
                if mentions(v, s):
                    v = subst(v, s, r)
                mem[l] = v
            st.mem = mem
            nd = {}
            for k, v in st.dom.items():
                if mentions(k, s):
                    k = subst(k, s, r)
                nd[k] = v
            st.dom = nd
            st.mon = subst(st.mon, s, r)
        else:
            st = st.copy()
        if dom is not None:
            if len(dom) == 1:
                return next(iter(dom)), st
            st.dom[s] = frozenset(dom)
        return s, st

    def type_dom(self, T, loc=None):
        if T is None:
            return None
        if self.domain_hook:
            d = self.domain_hook(T, loc)
            if d is not None:
                return d
        if T.get('ptr'):
            return None
        if T.get('bt') == 'bool':
            return frozenset((0, 1))
        if 'enum' in T and T['enum'] in self.P.enums:
            return frozenset(self.P.enums[T['enum']].values())
        return None

    def sym_for(self, st, name, T):
        return self.fresh(st, name, self.type_dom(T))

    def dom_of(self, st, s):
        return st.dom.get(s)

    # ------------------------------------------------------------------------------------------------ terms
    def fold(self, op, args):
        """Builds op(args), normalised."""
        if op == '!=':
            return self.fold('!', (self.fold('==', args),))
        if op == '>':
            return self.fold('<', (args[1], args[0]))
        if op == '>=':
            return self.fold('!', (self.fold('<', args),))
        if op == '<=':
            return self.fold('!', (self.fold('<', (args[1], args[0])),))
        if op == '!':
            a = args[0]
            if isinstance(a, (int, float)):
                return 0 if a else 1
            if a == NULL:
                return 1
            if isinstance(a, tuple) and a[0] == 'op' and a[1] == '!':
                return self.fold('bool', (a[2],))
            if isinstance(a, tuple) and a[0] in ('p', 'tp', 'clo', 'fn', 'str', 'some'):
                return 0
            if a == ('none',):
                return 1
            return ('op', '!', a)
        if op == 'bool':
            a = args[0]
            if isinstance(a, (int, float)):
                return 1 if a else 0
            if a == NULL or a == ('none',):
                return 0
            if isinstance(a, tuple) and a[0] in ('p', 'tp', 'clo', 'fn', 'str', 'some'):
                return 1
            if isinstance(a, tuple) and a[0] == 'op' and a[1].startswith('as:'):
                a = a[2]
            if isinstance(a, tuple) and a[0] == 'op' and a[1] in ('!', '==', '<', 'bool', 'isnull') or \
               isinstance(a, tuple) and a[0] == 'op' and a[1] in self.BOOLOPS:
                return a
            return ('op', 'bool', a)
        if op == '==':
            a, b = args
            if a == b:
                return 1
            ca, cb = self.ground(a), self.ground(b)
            if ca and cb:
                return 1 if a == b else 0
            if (a == NULL and isinstance(b, tuple) and b[0] in ('p', 'clo', 'fn', 'str')) or \
               (b == NULL and isinstance(a, tuple) and a[0] in ('p', 'clo', 'fn', 'str')):
                return 0
            if repr(b) < repr(a):
                a, b = b, a
            return ('op', '==', a, b)
        if op in ('|', '^', '&') and len(args) == 2 and isinstance(args[0], tuple) and args[0][:1] in (('p',), ('tp',)) and isinstance(args[1], int):
            # integers made from pointers: the low bits of a pointer to an object are free for tags
            l, k, m = args[0][1], args[0][2] if args[0][0] == 'tp' else 0, args[1]
            if op in '|^' and 0 <= m < 8:
                k = k | m if op == '|' else k ^ m
                return ('tp', l, k) if k else ('p', l)
            if op == '&' and 0 <= m < 8:
                return k & m
            if op == '&' and (m | 7) in (-1, (1 << 64) - 1):
                k &= m & 7
                return ('tp', l, k) if k else ('p', l)
        if all(isinstance(a, (int, float)) for a in args):
            r = self.arith(op, args)
            if r is not None:
                return r
        if op == '<' and len(args) == 2 and args[0] == args[1]:
            return 0
        return ('op', op) + tuple(args)

    BOOLOPS = set()

    @staticmethod
    def ground(v):
        return isinstance(v, (int, float)) or v == NULL or (isinstance(v, tuple) and v[0] in ('p', 'tp', 'str', 'fn'))

    def arith(self, op, args):
        try:
            if len(args) == 2:
                a, b = args
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '/':
                    if b == 0:
                        return None
                    if isinstance(a, int) and isinstance(b, int):
                        q = abs(a) // abs(b)
                        return q if (a < 0) == (b < 0) else -q
                    return a / b
                if op == '%':
                    if b == 0:
                        return None
                    r = abs(a) % abs(b)
                    return -r if a < 0 else r
                if op == '<':
                    return 1 if a < b else 0
                if op == '&':
                    return a & b
                if op == '|':
                    return a | b
                if op == '^':
                    return a ^ b
                if op == '<<':
                    return a << b if 0 <= b < 128 else None
                if op == '>>':
                    return a >> b if 0 <= b < 128 else None
                if op == '&&':
                    return 1 if a and b else 0
                if op == '||':
                    return 1 if a or b else 0
            else:
                a = args[0]
                if op == '-':
                    return -a
                if op == '+':
                    return a
                if op == '~':
                    return ~a
            if op in self.FUNS:
                return self.FUNS[op](*args)
        except (TypeError, OverflowError, ValueError):
            return None
        return None

    FUNS = {}

    def wrap(self, v, T):
        """Wraps an integer constant to the width of T."""
        if T is None:
            return v
        if T.get('bt') == 'bool' and not T.get('ptr'):
            return self.fold('bool', (v,))
        if isinstance(v, int) and T.get('bt') == 'int' and not T.get('ptr'):
            w = T.get('w', 64)
            m = (1 << w) - 1
            x = v & m
            if T.get('sg') and x >> (w - 1):
                x -= 1 << w
            return x
        if isinstance(v, float) and T.get('bt') == 'int':
            return int(v)
        if isinstance(v, int) and T.get('bt') == 'float':
            return float(v)
        return v

    def eval_term(self, v, env):
        if isinstance(v, tuple) and v and v[0] == 's':
            return env.get(v, v)
        if isinstance(v, tuple) and v and v[0] == 'op':
            return self.fold(v[1], tuple(self.eval_term(a, env) for a in v[2:]))
        if isinstance(v, tuple) and v and v[0] == 'some':
            return ('some', self.eval_term(v[1], env))
        return v

    def simplify(self, v, st):
        """Replaces symbols that have become constants."""
        if not isinstance(v, tuple):
            return v
        env = {}
        for s in syms(v):
            d = st.dom.get(s)
            if d is not None and len(d) == 1:
                env[s] = next(iter(d))
        if env:
            v = self.eval_term(v, env)
        if isinstance(v, tuple) and v and v[0] == 'op':
            d = st.dom.get(v)
            if d is not None and len(d) == 1:
                return next(iter(d))
        return v

    def split(self, v, st):
        """Splits `st` by the truth of `v`: list of (bool, state)."""
        v = self.fold('bool', (self.simplify(v, st),))
        v = self.simplify(v, st)
        if isinstance(v, (int, float)):
            return [(bool(v), st)]
        if v == NULL:
            return [(False, st)]
        if v[0] == 'op' and v[1] == '!':
            return [(not b, s) for b, s in self.split(v[2], st)]
        if v[0] == 'op' and v[1] in ('&&', '||'):
            out = []
            for b, s in self.split(v[2], st):
                if (v[1] == '&&') == b:
                    out += self.split(v[3], s)
                else:
                    out.append((b, s))
            return out
        inner = v[2] if v[0] == 'op' and v[1] == 'bool' else v
        ss = syms(v)
        fin = [s for s in ss if s in st.dom]
        if fin and len(fin) == len(ss):
            if len(ss) == 1:
                s = ss[0]
                kk = (v, st.dom[s])
                part = self._splitc.get(kk)
                if part is None:
                    T, F, U = set(), set(), set()
                    for c in st.dom[s]:
                        r = self.fold('bool', (self.eval_term(v, {s: c}),))
                        if isinstance(r, (int, float)):
                            (T if r else F).add(c)
                        else:
                            U.add(c)
                    part = self._splitc[kk] = (T, F, U)
                T, F, U = part
                if not U:
                    out = []
                    for b, ds in ((True, T), (False, F)):
                        if ds:
                            n = st.copy()
                            n.dom[s] = frozenset(ds)
                            out.append((b, n))
                    return out
            else:
                # concretise the symbol with the smallest domain
                s = min(ss, key=lambda x: (len(st.dom[x]), repr(x)))
                if len(st.dom[s]) <= 64:
                    out = []
                    for c in sorted(st.dom[s], key=repr):
                        n = st.copy()
                        n.dom[s] = frozenset((c,))
                        out += self.split(self.eval_term(v, {s: c}), n)
                    return out
        # opaque condition: both ways, remembered
        out = []
        for b in (True, False):
            n = st.copy()
            n.dom[v if v[0] == 'op' else ('op', 'bool', v)] = frozenset((1 if b else 0,))
            out.append((b, n))
        return out

    def concretise(self, v, st):
        """Splits until `v` is a constant where its symbols have finite domains."""
        v = self.simplify(v, st)
        ss = syms(v)
        if not ss or any(s not in st.dom for s in ss):
            return [(v, st)]
        s = ss[0]
        out = []
        for c in sorted(st.dom[s], key=repr):
            n = st.copy()
            n.dom[s] = frozenset((c,))
            out += self.concretise(self.eval_term(v, {s: c}), n)
        return out

    # ------------------------------------------------------------------------------------------------ memory
    def origin(self, loc, st):
        for i in range(len(loc), 0, -1):
            o = st.mem.get(loc[:i] + ('__o',))
            if o is not None:
                return o + loc[i:]
        return loc

    def read(self, loc, T, st):
        v = st.mem.get(loc)
        if v is not None:
            return self.simplify(v, st), st
        s = ('s', ('init', self.origin(loc, st)))
        if self.ignore and self.ignore(loc):
            return s, st
        st = st.copy()
        if s not in st.dom:
            d = self.type_dom(T, loc)
            if d is not None:
                st.dom[s] = d
        d = st.dom.get(s)
        if d is not None and len(d) == 1:
            s = next(iter(d))
        st.mem[loc] = s
        return s, st

    ignore = None   # predicate on locations whose contents are not tracked

    def write(self, loc, val, st, node=None, fr=None):
        if self.ignore and self.ignore(loc):
            return st
        if self.write_hook:
            r = self.write_hook(loc, val, st, node, fr)
            if r is not None:
                st = r
        if isinstance(val, tuple) and val and val[0] == 'obj':
            return self.copy_obj(val[1], loc, st)
        st = st.copy()
        st.mem[loc] = val
        return st

    def copy_obj(self, src, dst, st):
        if src == dst:
            return st
        st = st.copy()
        n = len(dst)
        for k in [k for k in st.mem if k[:n] == dst]:
            del st.mem[k]
        m = len(src)
        for k, v in list(st.mem.items()):
            if k[:m] == src:
                st.mem[dst + k[m:]] = v
        if src + ('__o',) not in st.mem:
            st.mem[dst + ('__o',)] = self.origin(src, st)
        return st

    def kill_prefix(self, prefix, st):
        n = len(prefix)
        ks = [k for k in st.mem if k[:n] == prefix]
        if not ks:
            return st
        st = st.copy()
        for k in ks:
            del st.mem[k]
        return st

    def havoc(self, loc, st, T=None, name=None):
        st = self.kill_prefix(loc, st)
        st = st.copy()
        o = ('hv', name)
        # rename an older havoc of the same name
        s0, st = self.fresh(st, ('hvtok', name))
        st.mem[loc + ('__o',)] = (s0,)
        return st

    def gc(self, st):
        """Drops locations and facts unreachable from variables, globals and the monitor."""
        roots = []
        mem = st.mem
        bases = set()
        work = []

        def add_val(v):
            if isinstance(v, tuple):
                if v and v[0] in ('p', 'obj') and len(v) == 2 and isinstance(v[1], tuple):
                    add_base(v[1])
                if len(v) == 2 and v[0] == 's':
                    if v not in live:
                        live.add(v)
                        add_base(('d', v))
                        add_base((v,))
                for x in v:
                    if isinstance(x, tuple):
                        add_val(x)
            elif isinstance(v, frozenset):
                for x in v:
                    add_val(x)

        def add_base(loc):
            b = loc[:2]
            if b not in bases:
                bases.add(b)
                work.append(b)
                for x in loc:
                    if isinstance(x, tuple):
                        add_val(x)

        live = set()
        byb = {}
        for k, v in mem.items():
            b = k[:2]
            byb.setdefault(b, []).append((k, v))
        for b in byb:
            if b[0] in ('v', 'g', 't', 'root'):
                add_base(b)
        if st.mon is not None:
            add_val(st.mon)
        while work:
            b = work.pop()
            for k, v in byb.get(b, ()):
                add_val(v)
                for x in k:
                    if isinstance(x, tuple):
                        add_val(x)
        dead = [k for b, kvs in byb.items() if b not in bases for k, v in kvs]
        deadd = [k for k in st.dom if not self._dom_live(k, live)]
        if dead or deadd:
            st = st.copy()
            for k in dead:
                del st.mem[k]
            for k in deadd:
                del st.dom[k]
        if any(isinstance(s[1], tuple) and s[1] and s[1][0] == 'old' for s in live):
            st = self.canon(st)
        return st

    def canon(self, st):
        """Renumbers the generations of renamed symbols by first occurrence, so that equal states get equal names."""
        order = {}
        fam = {}

        def scan(v):
            if isinstance(v, tuple):
                if v and v[0] == 's' and len(v) == 2:
                    n = v[1]
                    f = n[2] if isinstance(n, tuple) and n and n[0] == 'old' and len(n) == 3 else n
                    if v not in order:
                        order[v] = f
                        fam.setdefault(f, []).append(v)
                    if f is not n:
                        return
                for x in v:
                    if isinstance(x, tuple):
                        scan(x)
            elif isinstance(v, frozenset):
                for x in sorted(v, key=repr):
                    scan(x)

        scan(st.mon)
        for k in sorted(st.mem, key=self._neutral):
            scan(st.mem[k])
        for k in sorted(st.mem, key=self._neutral):
            scan(k)
        ren = {}
        for f, vs in fam.items():
            if len(vs) == 1 and vs[0][1] == f:
                continue
            vs2 = vs
            for i, v in enumerate(vs2):
                w = ('s', f) if i == 0 else ('s', ('old', i, f))
                if w != v:
                    ren[v] = w
        if not ren:
            return st
        st = st.copy()

        def rn(v):
            if isinstance(v, tuple):
                if v in ren:
                    return ren[v]
                return tuple(rn(x) if isinstance(x, tuple) else x for x in v)
            return v
        st.mem = {rn(k): rn(v) for k, v in st.mem.items()}
        st.dom = {rn(k): v for k, v in st.dom.items()}
        st.mon = rn(st.mon)
        return st

    @staticmethod
    def _neutral(k):
        import re
        return re.sub(r"\('old', \d+, ", "('old', ", repr(k))

    @staticmethod
    def _dom_live(k, live):
        if k[0] == 's':
            if k in live:
                return True
            # lazily initialised locations of persistent roots stay
            n = k[1]
            return isinstance(n, tuple) and n and n[0] == 'init' and isinstance(n[1], tuple) and n[1][:1] in (('g',), ('root',))
        ss = syms(k)
        return bool(ss) and all(Engine._dom_live(s, live) for s in ss)

    def drop_frame(self, fr, st):
        d = fr.depth
        st2 = None
        ks = [k for k in st.mem if k[0] in ('v', 't') and k[1] == d]
        if ks:
            st2 = st.copy()
            for k in ks:
                del st2.mem[k]
        return st2 or st

    # ------------------------------------------------------------------------------------------------ types
    def is_objtype(self, T):
        if T is None or T.get('ptr'):
            return False
        r = T.get('rec')
        if r is None:
            return False
        if T.get('lam'):
            return False
        if r in self.value_classes_exact:
            return False
        if r in ('std::pair', 'std::tuple', 'std::array') or r in self.obj_std:
            return True
        return not r.startswith('std::') and not r.startswith('__gnu')

    value_classes_exact = set()

    def catches(self, caught, thrown):
        """Does a handler for type `caught` catch an exception of class `thrown`?"""
        if caught is None:
            return True
        if thrown == caught:
            return True
        seen = set()
        work = [thrown]
        while work:
            c = work.pop()
            if c == caught:
                return True
            if c in seen:
                continue
            seen.add(c)
            if c in STD_EXC:
                work += STD_EXC[c]
            elif c in self.P.recs:
                r = self.P.recs[c]
                for b in r['bases']:
                    bt = r['types'][b]
                    if bt.get('rec'):
                        work.append(bt['rec'])
        return False

    # ------------------------------------------------------------------------------------------------ exceptions
    def throw(self, typ, val, st, node, fr):
        self.sinks[-1].append((Thrown(typ, val, node, fr.fn), st))

    # ------------------------------------------------------------------------------------------------ lvalues
    def var_loc(self, node, fr):
        if 'g' in node:
            return ('g', node['g'])
        d = node['d']
        f = fr
        while f is not None:
            if d in f.env:
                return f.env[d]
            f = f.parent
        return ('v', fr.depth, d)

    bind_hook = None          # (whole value, index) -> location of the part or None
    lv_hook = None            # (member access node, loc, st, fr)

    def lv(self, e, st, fr):
        """Evaluates e as a glvalue: list of (loc, st)."""
        if self.lv_hook is not None and e['k'] == 'mem':
            r = self.glv(e, st, fr)
            for l, s in r:
                self.lv_hook(e, l, s, fr)
            return r
        return self.glv(e, st, fr)

    def glv(self, e, st, fr):
        k = e['k']
        if k == 'ref':
            loc = self.var_loc(e, fr)
            if loc and loc[0] == 'refval':
                return [(loc[1], st)]
            if e.get('isref') or (loc + ('__ref',)) in st.mem:
                r = st.mem.get(loc + ('__ref',))
                if r is not None:
                    return [(r, st)]
            if e.get('binding'):
                r = st.mem.get(loc + ('__ref',))
                if r is not None:
                    return [(r, st)]
            return [(loc, st)]
        if k == 'mem':
            out = []
            if e.get('arrow'):
                for v, s in self.ev(e['b'], st, fr):
                    for l, s2 in self.deref(v, s, e, fr):
                        out.append((l + (e['n'],), s2))
            else:
                for l, s in self.lv(e['b'], st, fr):
                    out.append((l + (e['n'],), s))
            if e.get('isref'):
                o2 = []
                for l, s in out:
                    r = s.mem.get(l + ('__ref',))
                    if r is None:
                        r = ('d', ('s', ('initref', self.origin(l, s))))
                        s = s.copy()
                        s.mem[l + ('__ref',)] = r
                    o2.append((r, s))
                return o2
            return out
        if k == 'this':
            return [(('tmpthis',), st)]
        if k == 'un' and e['op'] == '*':
            out = []
            for v, s in self.ev(e['e'], st, fr):
                out += self.deref(v, s, e, fr)
            return out
        if k == 'un' and e['op'] in ('++', '--'):
            return [(l, s) for l, s, _ in self.incdec(e, st, fr)]
        if k == 'idx':
            out = []
            for b, s in self.ev_ptr(e['b'], st, fr):
                for i, s2 in self.ev(e['i'], s, fr):
                    i = self.simplify(i, s2)
                    if isinstance(b, tuple) and b[0] == 'p':
                        base = b[1]
                        if len(base) and isinstance(base[-1], tuple) and base[-1][0] == 'i' and isinstance(base[-1][1], int) and isinstance(i, int):
                            out.append((base[:-1] + (('i', base[-1][1] + i),), s2))
                        else:
                            out.append((base + (('i', i),), s2))
                    else:
                        out += [(l + (('i', i),), s3) for l, s3 in self.deref(b, s2, e, fr)]
            return out
        if k == 'asg':
            return [(l, s) for l, s in self.assign(e, st, fr)]
        if k == 'cond':
            out = []
            for b, s in self.cond(e['c'], st, fr):
                out += self.lv(e['a'] if b else e['b'], s, fr)
            return out
        if k == 'cast':
            return self.lv(e['e'], st, fr)
        if k == 'bin' and e['op'] == ',':
            out = []
            for v, s in self.ev(e['a'], st, fr):
                out += self.lv(e['b'], s, fr)
            return out
        if k == 'call' and e.get('n') in ('move', 'forward', 'as_const') and e.get('q', '').startswith('std::') and len(e['args']) == 1:
            return self.lv(e['args'][0], st, fr)
        if k == 'call':
            out = []
            for v, s in self.ev_call(e, st, fr, want_lv=True):
                out.append(self.val_loc(v, e, s, fr))
            return out
        # prvalue: materialise
        out = []
        for v, s in self.ev(e, st, fr):
            out.append(self.val_loc(v, e, s, fr))
        return out

    def val_loc(self, v, e, st, fr):
        """Location of a value: references yield their referent, prvalues a temporary."""
        if isinstance(v, tuple) and v and v[0] == 'obj':
            return (v[1], st)
        if isinstance(v, tuple) and v and v[0] == 'lref':
            return (v[1], st)
        loc = ('t', fr.depth, self.site(e, fr))
        st = st.copy()
        n = len(loc)
        for k in [k for k in st.mem if k[:n] == loc]:
            del st.mem[k]
        st.mem[loc] = v
        return (loc, st)

    def site(self, e, fr):
        return (fr.fn.files[e['f']] if 'f' in e else fr.fn.file, e.get('l', 0), e['k'], e.get('n') or e.get('op') or '', e.get('_id', id(e)))

    def deref(self, v, st, e, fr):
        v = self.simplify(v, st)
        if isinstance(v, tuple) and v[0] == 'p':
            return [(v[1], st)]
        if v == NULL:
            if self.null_hook:
                self.null_hook(e, st, fr)
            return []
        if isinstance(v, tuple) and v[0] == 'lref':
            return [(v[1], st)]
        if isinstance(v, tuple) and v[0] == 'obj':
            return [(v[1], st)]
        # symbolic pointer (or iterator / smart pointer)
        if self.null_hook:
            r = self.null_hook(e, st, fr, v)
            if r is not None:
                st = r
        return [(('d', v), st)]

    def ev_ptr(self, e, st, fr):
        """Evaluates an expression used as pointer; arrays decay."""
        T = fr.fn.ty(e)
        if T and T.get('bt') == 'array' and not T.get('ptr') and e['k'] != 'str':
            if e['k'] == 'cond' and e['a']['k'] == 'str' == e['b']['k']:
                return self.ev(e, st, fr)
            return [(('p', l + (('i', 0),)), s) for l, s in self.lv(e, st, fr)]
        return self.ev(e, st, fr)

    # ------------------------------------------------------------------------------------------------ rvalues
    def ev(self, e, st, fr):
        """Evaluates e as an rvalue: list of (value, st)."""
        self.steps += 1
        if self.steps > self.step_limit:
            raise Limit('step limit exceeded in ' + fr.fn.q)
        if self.expr_hook:
            r = self.expr_hook(e, st, fr)
            if r is not None:
                return r
        k = e['k']
        if k == 'int' or k == 'bool':
            v = e['v']
            return [(int(v), st)]
        if 'cv' in e and k not in ('call',):
            return [(e['cv'], st)]
        m = getattr(self, 'ev_' + k, None)
        if m:
            return m(e, st, fr)
        if k == '?':
            self.note_unknown(e.get('c', '?'), fr, e)
            states = [st]
            for c in e.get('ch', []):
                ns = []
                for s in states:
                    if c['k'] in ('ref', 'mem'):
                        ns.append(s)
                    else:
                        ns += [s2 for _, s2 in self.ev(c, s, fr)]
                states = ns
            out = []
            for s in states:
                v, s = self.sym_for(s, self.site(e, fr), fr.fn.ty(e))
                out.append((v, s))
            return out
        raise AnalysisBroken('engine: unhandled expression kind %s at %s' % (k, fr.fn.loc(e)))

    def ev_float(self, e, st, fr):
        return [(float(e['v']), st)]

    def ev_str(self, e, st, fr):
        return [(('str', e['v']), st)]

    def ev_null(self, e, st, fr):
        return [(NULL, st)]

    def ev_zero(self, e, st, fr):
        T = fr.fn.ty(e)
        if T and T.get('ptr'):
            return [(NULL, st)]
        if self.is_objtype(T):
            return [(('obj', ('zero',)), st)]
        return [(0, st)]

    def ev_sizeof(self, e, st, fr):
        return [(e.get('cv', 8), st)]

    def ev_enumc(self, e, st, fr):
        return [(e['v'], st)]

    def ev_fref(self, e, st, fr):
        return [(('fn', e['fn'], e['q']), st)]

    def ev_addrlabel(self, e, st, fr):
        return [(('label', e['n']), st)]

    def ev_this(self, e, st, fr):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            return [(('p', ('root', 'this')), st)]
        return [(('p', f.this), st)]

    def load(self, loc, T, st, fr):
        if loc == ('zero',):
            return [(0, st)]
        if self.is_objtype(T):
            return [(('obj', loc), st)]
        if T and T.get('bt') == 'array' and not T.get('ptr'):
            return [(('p', loc + (('i', 0),)), st)]
        return [self.read(loc, T, st)]

    def ev_ref(self, e, st, fr):
        out = []
        T = fr.fn.ty(e)
        if 'g' in e and not e.get('rv') is None and e.get('cv') is not None:
            return [(e['cv'], st)]
        for l, s in self.lv(e, st, fr):
            out += self.load(l, T, s, fr)
        return out

    def ev_mem(self, e, st, fr):
        if 'fn' in e:
            return [(('fn', e['fn'], e.get('q')), st)]
        out = []
        for l, s in self.lv(e, st, fr):
            out += self.load(l, fr.fn.ty(e), s, fr)
        return out

    def ev_idx(self, e, st, fr):
        out = []
        for l, s in self.lv(e, st, fr):
            out += self.load(l, fr.fn.ty(e), s, fr)
        return out

    def ev_un(self, e, st, fr):
        op = e['op']
        if op == '!':
            out = []
            for b, s in self.cond(e['e'], st, fr):
                out.append((0 if b else 1, s))
            return dedupe2(out)
        if op == '&':
            sub = e['e']
            if sub['k'] == 'fref':
                return self.ev(sub, st, fr)
            if sub['k'] == 'mem' and 'fn' in sub:
                return self.ev(sub, st, fr)
            return [(('p', l), s) for l, s in self.lv(sub, st, fr)]
        if op == '*':
            out = []
            for l, s in self.lv(e, st, fr):
                out += self.load(l, fr.fn.ty(e), s, fr)
            return out
        if op in ('++', '--', 'p++', 'p--'):
            return [((v if op[0] == 'p' else self.simplify(s.mem.get(l, v), s)), s) for l, s, v in self.incdec(e, st, fr)]
        if op in ('__extension__',):
            return self.ev(e['e'], st, fr)
        if op in ('__real', '__imag'):
            return self.ev(e['e'], st, fr)
        out = []
        for v, s in self.ev(e['e'], st, fr):
            out.append((self.wrap(self.fold(op, (self.simplify(v, s),)), fr.fn.ty(e)), s))
        return out

    def incdec(self, e, st, fr):
        op = e['op'][-2:]
        T = fr.fn.ty(e['e'])
        out = []
        for l, s in self.lv(e['e'], st, fr):
            for v, s2 in self.load(l, T, s, fr):
                v = self.simplify(v, s2)
                if isinstance(v, (int, float)) or (isinstance(v, tuple) and v[0] == 'op') or (isinstance(v, tuple) and v[0] == 's' and v in s2.dom):
                    if isinstance(v, (int, float)):
                        nv = self.wrap(v + (1 if op == '++' else -1), T)
                    elif self.keep_terms:
                        nv = self.fold('+' if op == '++' else '-', (v, 1))
                    else:
                        nv, s2 = self.fresh(s2, ('inc', self.site(e, fr)), None)
                elif isinstance(v, tuple) and v[0] == 'p' and v[1] and isinstance(v[1][-1], tuple) and v[1][-1][0] == 'i' and isinstance(v[1][-1][1], int):
                    nv = ('p', v[1][:-1] + (('i', v[1][-1][1] + (1 if op == '++' else -1)),))
                elif self.keep_terms and isinstance(v, tuple) and v[0] == 's':
                    nv = self.fold('+' if op == '++' else '-', (v, 1))
                else:
                    nv, s2 = self.fresh(s2, ('inc', self.site(e, fr)), None)
                out.append((l, self.write(l, nv, s2, e, fr), v))
        return out

    def ev_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for b, s in self.cond(e, st, fr):
                out.append((1 if b else 0, s))
            return dedupe2(out)
        if op == ',':
            out = []
            for v, s in self.ev(e['a'], st, fr):
                out += self.ev(e['b'], s, fr)
            return out
        out = []
        for a, s in self.ev_ptr(e['a'], st, fr):
            for b, s2 in self.ev_ptr(e['b'], s, fr):
                a2, b2 = self.simplify(a, s2), self.simplify(b, s2)
                if op in ('+', '-') and isinstance(a2, tuple) and a2[0] == 'p' and isinstance(b2, int) and \
                        a2[1] and isinstance(a2[1][-1], tuple) and a2[1][-1][0] == 'i' and isinstance(a2[1][-1][1], int):
                    d = b2 if op == '+' else -b2
                    out.append((('p', a2[1][:-1] + (('i', a2[1][-1][1] + d),)), s2))
                    continue
                r = self.fold(op, (a2, b2))
                if isinstance(r, int):
                    r = self.wrap(r, fr.fn.ty(e))
                out.append((r, s2))
        return out

    def ev_cond(self, e, st, fr):
        out = []
        for b, s in self.cond(e['c'], st, fr):
            out += self.ev(e['a'] if b else e['b'], s, fr)
        return dedupe2(out)

    def ev_elvis(self, e, st, fr):
        out = []
        for v, s in self.ev(e['c'], st, fr):
            for b, s2 in self.split(v, s):
                if b:
                    out.append((v, s2))
                else:
                    out += self.ev(e['b'], s2, fr)
        return out

    def ev_cast(self, e, st, fr):
        ck = e.get('ck')
        T = fr.fn.ty(e)
        if e.get('dyn'):
            h = self.models.get('dynamic_cast')
            if h:
                return h(self, e, st, fr)
            out = []
            for v, s in self.ev(e['e'], st, fr):
                v2, s = self.fresh(s, ('dyn', self.site(e, fr)))
                out.append((v2, s))
            return out
        if ck == 'ToVoid':
            return [(VOID, s) for _, s in self.ev(e['e'], st, fr)]
        sub = e['e']
        if T and not self.is_objtype(T) and ck in ('NoOp', 'LValueBitCast') and sub['k'] in ('ref', 'mem') and not sub.get('rv') and self.is_objtype(fr.fn.ty(sub)):
            return [(('obj', l), s) for l, s in self.lv(sub, st, fr)]
        out = []
        for v, s in (self.ev_ptr(sub, st, fr)):
            v = self.simplify(v, s)
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                v = self.fold('bool', (v,))
            elif ck == 'IntegralCast' and T and T.get('bt') in ('int', 'bool') and not T.get('ptr'):
                if isinstance(v, int):
                    v = self.wrap(v, T)
                else:
                    ss = syms(v)
                    d = s.dom.get(v) if isinstance(v, tuple) and v and v[0] == 's' else None
                    if d is not None and any(self.wrap(c, T) != c for c in d if isinstance(c, int)):
                        v = self.cast_term(v, T)
                    elif d is None and self.keep_terms and T.get('bt') == 'int' and not self.fits(v, fr.fn.ty(sub), T):
                        v = self.cast_term(v, T)
            elif ck == 'BitCast' and self.keep_terms and T and T.get('ptr') and isinstance(v, tuple) and v and v[0] in ('s', 'op'):
                pt = T['s'].rstrip('*& ').replace('const ', '').strip() if not T['s'].endswith('**') else 'ptr'
                if v[0] == 'op' and v[1].startswith('as:'):
                    v = v[2]
                if pt != 'void':
                    v = ('op', 'as:' + pt, v)
            elif ck in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'):
                if isinstance(v, (int, float)):
                    v = self.wrap(v, T)
                elif self.keep_numcasts:
                    v = ('op', 'cast:' + T['s'], v)
            out.append((v, s))
        return out

    keep_numcasts = False
    keep_terms = False     # arithmetic on opaque values, narrowing casts and pointer casts stay visible as terms

    def fits(self, v, FT, T):
        """Does every value of the source type keep its value in the target type?"""
        if not FT or FT.get('ptr'):
            return True
        if FT.get('bt') == 'bool':
            return True
        if FT.get('enum') and FT.get('bt') != 'int':
            return True
        w, w2 = FT.get('w', 64), T.get('w', 64)
        if w == w2:
            return w == 64 or FT.get('sg') == T.get('sg')
        return w < w2 and (not FT.get('sg') or T.get('sg') or w2 == 64)

    def cast_term(self, v, T):
        name = 'wrap%d%s' % (T.get('w', 64), 's' if T.get('sg') else 'u')
        if name not in self.FUNS:
            TT = dict(T)
            self.FUNS[name] = lambda x: self.wrap(x, TT) if isinstance(x, int) else x
        return ('op', name, v)

    def ev_lambda(self, e, st, fr):
        caps = []
        this = None
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        states = [(tuple(), st)]
        for c in e.get('caps', []):
            ns = []
            for cs, s in states:
                if c.get('this'):
                    ns.append((cs, s))
                    continue
                if c.get('init'):
                    for v, s2 in self.ev(c['init'], s, fr):
                        ns.append((cs + ((c['d'], 'val', v),), s2))
                    continue
                loc = self.var_loc({'d': c['d']}, fr)
                if loc[0] == 'refval':
                    loc = loc[1]
                else:
                    loc = s.mem.get(loc + ('__ref',), loc)
                if c.get('byref'):
                    ns.append((cs + ((c['d'], 'ref', loc),), s))
                else:
                    v = s.mem.get(loc)
                    if v is None:
                        ns.append((cs + ((c['d'], 'ref', loc),), s))
                    else:
                        ns.append((cs + ((c['d'], 'val', v),), s))
            states = ns
        thisloc = f.this if f is not None else None
        if e.get('gen'):
            key = ('gen',) + tuple(e.get('specs', ()))
        else:
            key = e['fn']
        return [(('clo', key, cs, thisloc, fr.depth), s) for cs, s in states]

    def new_array(self, e, st, fr):
        """An array of a known number of elements, made by their constructor."""
        out = []
        x = {k: v for k, v in e.items() if k != 'n'}
        loc = ('h', self.site(x, fr))
        T = fr.fn.types[e['ty']]
        for n, s in self.ev(e['n'], st, fr):
            if not isinstance(n, int) or n > 64:
                out += self.ev_new(x, s, fr)
                continue
            if self.fresh_new:
                loc = self.new_loc(loc, s)
            states = [s2.set(loc + ('__alive',), 1) for s2 in (self.recency(loc, s, self.site(x, fr)) if not self.fresh_new else [s])]
            if e.get('init') and e['init']['k'] == 'ctor':
                for i in range(n):
                    states = [s3 for s2 in states for s3 in self.init_loc(loc + (('i', i),), T, e['init'], s2, fr)]
            out += [(('p', loc + (('i', 0),)), s2) for s2 in states]
        return out

    def ev_new(self, e, st, fr):
        if isinstance(e.get('n'), dict):
            return self.new_array(e, st, fr)
        loc = ('h', self.site(e, fr))
        T = fr.fn.types[e['ty']]
        out = []
        for s0 in (s for x in self.ev_list_states(e.get('place', []), st, fr) for s in (self.recency(loc, x, self.site(e, fr)) if not self.fresh_new else [x])):
            if self.fresh_new:
                loc = self.new_loc(('h', self.site(e, fr)), s0)
                s0 = s0.set(loc + ('__alive',), 1)
            if e.get('init'):
                for s in self.init_loc(loc, T, e['init'], s0, fr):
                    out.append((('p', loc), s.set(loc + ('__alive',), 1)))
            else:
                out.append((('p', loc), s0.set(loc + ('__alive',), 1)))
        return out

    fresh_new = False         # a new location for every allocation instead of renaming the older objects of the site

    def new_loc(self, loc, s0):
        n = 0
        l = loc
        while any(k[:2] == l for k in s0.mem):
            n += 1
            l = ('h', ('#', n, loc[1]))
        return l

    def recency(self, loc, s0, site):
        """Renames an older object of the same allocation site."""
        if any(k[:2] == loc or mentions(v, loc) for k, v in s0.mem.items()):
            n = 1
            old = ('h', ('old', n, site))
            while any(k[:2] == old or mentions(v, old) for k, v in s0.mem.items()):
                n += 1
                old = ('h', ('old', n, site))
            s0 = s0.copy()
            mem = {}
            for k, v in s0.mem.items():
                if k[:2] == loc:
                    k = old + k[2:]
                if mentions(v, loc):
                    v = subst(v, loc, old)
                mem[k] = v
            s0.mem = mem
            s0.mon = subst(s0.mon, loc, old)
        return [s0]

    insist_hook = None
    abort_hook = None

    def ev_del(self, e, st, fr):
        return [(VOID, s) for _, s in self.ev(e['e'], st, fr)]

    def ev_throw(self, e, st, fr):
        if 'e' not in e:
            self.throw('<rethrow>', None, st, e, fr)
            return []
        T = fr.fn.ty(e['e'])
        name = T.get('rec') or T['s']
        r = []
        x = e['e']
        if x['k'] in ('ctor', 'ilist') or x['k'] == 'call':
            for s in self.ev_list_states(x.get('args', x.get('es', [])), st, fr):
                self.throw(name, None, s, e, fr)
        else:
            for v, s in self.ev(x, st, fr):
                self.throw(name, v, s, e, fr)
        return []

    def ev_list_states(self, es, st, fr):
        states = [st]
        for x in es:
            ns = []
            for s in states:
                ns += [s2 for _, s2 in self.ev_arg(x, s, fr)]
            states = dedupe(ns) if len(ns) > 1 else ns
        return states

    def ev_ilist(self, e, st, fr):
        T = fr.fn.ty(e)
        if T and T.get('bt') != 'array' and not self.is_objtype(T):
            if not e['es']:
                return [(NULL if T.get('ptr') else 0, st)]
            return self.ev(e['es'][0], st, fr)
        loc = ('t', fr.depth, self.site(e, fr))
        return [(('obj', loc), s) for s in self.init_loc(loc, T, e, st, fr)]

    def ev_stmtexpr(self, e, st, fr):
        out = []
        for o, s in self.ex(e['s'], st, fr):
            out.append((VOID, s))
        return out

    def ev_asg(self, e, st, fr):
        T = fr.fn.ty(e['a'])
        out = []
        for l, s in self.assign(e, st, fr):
            out += self.load(l, T, s, fr)
        return out

    def assign(self, e, st, fr):
        op = e['op']
        T = fr.fn.ty(e['a'])
        out = []
        if op == '=':
            for v, s in self.ev_ptr(e['b'], st, fr):
                for l, s2 in self.lv(e['a'], s, fr):
                    v2 = self.simplify(v, s2)
                    if isinstance(v2, int) and T and not T.get('ptr'):
                        v2 = self.wrap(v2, T)
                    out.append((l, self.write(l, v2, s2, e, fr)))
            return out
        bop = op[:-1]
        for v, s in self.ev(e['b'], st, fr):
            for l, s2 in self.lv(e['a'], s, fr):
                for old, s3 in self.load(l, T, s2, fr):
                    old, v2 = self.simplify(old, s3), self.simplify(v, s3)
                    if isinstance(old, tuple) and old[0] == 'p' and isinstance(v2, int) and bop in '+-' and old[1] and \
                            isinstance(old[1][-1], tuple) and old[1][-1][0] == 'i' and isinstance(old[1][-1][1], int):
                        nv = ('p', old[1][:-1] + (('i', old[1][-1][1] + (v2 if bop == '+' else -v2)),))
                    elif isinstance(old, (int, float)) and isinstance(v2, (int, float)):
                        nv = self.wrap(self.fold(bop, (old, v2)), T)
                    else:
                        nv = self.compound(bop, old, v2, s3, e, fr, T)
                        if isinstance(nv, list):
                            for x, s4 in nv:
                                out.append((l, self.write(l, x, s4, e, fr)))
                            continue
                        if nv is None and self.sym_compound:
                            nv = self.fold(bop, (old, v2))
                        if nv is None:
                            nv, s3 = self.fresh(s3, ('asg', self.site(e, fr)), self.type_dom(T))
                    out.append((l, self.write(l, nv, s3, e, fr)))
        return out

    sym_compound = False       # compound assignments of opaque values build terms

    def compound(self, bop, old, v, st, e, fr, T):
        """Value of a compound assignment with a non-constant operand; None: opaque."""
        if T and T.get('bt') == 'bool' and bop in '&|^':
            out = []
            for a, s in self.split(old, st):
                for b, s2 in self.split(v, s):
                    out.append((int({'&': a and b, '|': a or b, '^': a != b}[bop]), s2))
            return out
        # keep the term when it is small and over finite symbols
        r = self.fold(bop, (old, v))
        if self.keep_terms and self.term_size(r) < 24:
            return r
        ss = syms(r)
        if ss and all(s in st.dom for s in ss) and self.term_size(r) < 8:
            return r
        return None

    def term_size(self, v):
        if isinstance(v, tuple) and v and v[0] == 'op':
            return 1 + sum(self.term_size(x) for x in v[2:])
        return 1

    # ------------------------------------------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """Evaluates e as a condition: list of (bool, st)."""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||') and 'cv' not in e:
            out = []
            for b, s in self.cond(e['a'], st, fr):
                if (e['op'] == '&&') == b:
                    out += self.cond(e['b'], s, fr)
                else:
                    out.append((b, s))
            return dedupe2(out)
        if k == 'un' and e['op'] == '!' and 'cv' not in e:
            return [(not b, s) for b, s in self.cond(e['e'], st, fr)]
        if k == 'cast' and e.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp') and 'cv' not in e and not e.get('dyn'):
            return self.cond(e['e'], st, fr)
        out = []
        for v, s in self.ev(e, st, fr):
            if v == UNINIT:
                v, s = self.fresh(s, ('uninit', self.site(e, fr)), frozenset((0, 1)))
            out += self.split(v, s)
        if self.branch_hook:
            out = self.branch_hook(e, out, fr)
        return dedupe2(out)

    # ------------------------------------------------------------------------------------------------ initialisation
    def init_loc(self, loc, T, e, st, fr):
        """Initialises the object of type T at loc from expression e: list of states."""
        if T and (T.get('ref')):
            out = []
            for l, s in self.lv(e, st, fr):
                s = s.copy()
                s.mem[loc + ('__ref',)] = l
                out.append(s)
            return out
        if e is None:
            return [st]
        if e['k'] == 'ctor' and (self.is_objtype(T) or (T and T.get('bt') == 'array')):
            return self.construct(loc, e, st, fr)
        if e['k'] == 'ilist' and (self.is_objtype(T) or (T and T.get('bt') == 'array' and not T.get('ptr'))):
            states = [self.kill_prefix(loc, st)]
            arr = T.get('bt') == 'array' and not T.get('ptr')
            fs = e.get('fs')
            for i, x in enumerate(e['es']):
                fld = ('i', i) if arr else (fs[i] if fs and i < len(fs) else ('i', i))
                ns = []
                ET = fr.fn.ty(x)
                l2 = loc + (fld,)
                if fld == '<base>':
                    l2 = loc + (('lam', lam_name(ET['s'])),) if ET and ET.get('lam') else loc
                for s in states:
                    ns += self.init_loc(l2, ET, x, s, fr)
                states = ns
            return [s.set(loc + ('__alive',), 1) for s in states]
        out = []
        for v, s in self.ev_ptr(e, st, fr):
            v = self.simplify(v, s)
            if v == VOID:
                v = UNINIT
            if isinstance(v, int) and T and not T.get('ptr'):
                v = self.wrap(v, T)
            if isinstance(v, tuple) and v and v[0] == 'lref':
                for v2, s2 in self.load(v[1], T, s, fr):
                    out.append(self.write(loc, v2, s2, e, fr))
                continue
            s = self.kill_prefix(loc, s)
            if isinstance(v, tuple) and v and v[0] == 'obj':
                out.append(self.copy_obj(v[1], loc, s))
            else:
                if self.is_objtype(T) and isinstance(v, tuple) and v and v[0] == 's':
                    s = s.copy()
                    s.mem[loc + ('__o',)] = (v,)
                    out.append(s)
                else:
                    out.append(self.write(loc, v, s, e, fr))
        return out

    def construct(self, loc, e, st, fr):
        """Runs a constructor call on loc."""
        q = e['q']
        h = self.models.get('ctor:' + q)
        if h:
            return [s for _, s in h(self, e, loc, st, fr)]
        if e.get('cm') and len(e['args']) >= 1:
            fn = self.P.funcs.get(e['fn'])
            if q in self.value_classes or fn is None or fn.raw.get('defaulted') or not self.should_inline(fn, e):
                out = []
                for l, s in self.lv(e['args'][0], st, fr):
                    out.append(self.copy_obj(l, loc, s))
                return out
        fn = self.P.funcs.get(e['fn'])
        T = fr.fn.ty(e)
        if q in ('std::pair', 'std::tuple'):
            names = ['first', 'second'] if q == 'std::pair' else [('i', i) for i in range(len(e['args']))]
            refs = [x.rstrip().endswith('&') for x in targs_of(T)]
            if len(e['args']) == 1 and q == 'std::pair' and (fr.fn.ty(e['args'][0]) or {}).get('rec') == q:
                out = []
                for l, s in self.lv(e['args'][0], st, fr):
                    s2 = self.kill_prefix(loc, s) if l != loc else s
                    for n, isref in zip(names, refs):
                        src = s.mem.get(l + (n, '__ref'))
                        if isref:
                            s2 = s2.set(loc + (n, '__ref'), src if src is not None else l + (n,))
                        else:
                            s2 = self.copy_obj(src if src is not None else l + (n,), loc + (n,), s2)
                    out.append(s2.set(loc + ('__alive',), 1))
                return out
            if len(e['args']) == len(names) or q == 'std::tuple':
                states = [self.kill_prefix(loc, st)]
                for k, (n, a) in enumerate(zip(names, e['args'])):
                    ns = []
                    for s in states:
                        if k < len(refs) and refs[k]:
                            ns += [s2.set(loc + (n, '__ref'), l) for l, s2 in self.lv(a, s, fr)]
                            continue
                        AT = dict(fr.fn.ty(a) or {})
                        AT.pop('ref', None)
                        ns += self.init_loc(loc + (n,), AT, a, s, fr)
                    states = ns
                return [s.set(loc + ('__alive',), 1) for s in states]
        if e.get('q') in self.P.recs and (fn is None or fn.body is None or any('base' in i and 'fn' not in (i['e'] or {}) for i in fn.inits or ())):
            c = self.container_base(e['q'])        # inherited constructors
            if c:
                return [s for _, s in self.models['ctor:' + c](self, e, loc, st, fr)]
        if fn is not None and fn.body is not None and self.should_inline(fn, e):
            out = []
            for args, s in self.ev_args(e['args'], fn, st, fr):
                s = self.kill_prefix(loc, s)
                s = self.set_cls(s.set(loc + ('__alive',), 1), loc, T)
                for v, s2 in self.call_fn(fn, args, loc, s, e, fr):
                    out.append(s2)
            return out
        if e.get('dflt') and (fn is None or fn.raw.get('defaulted')) and not e['args']:
            # implicit default constructor: default member initialisers are unknown here
            rec = self.P.recs.get(q)
            states = [self.set_cls(self.kill_prefix(loc, st).set(loc + ('__alive',), 1), loc, T)]
            if rec:
                for f in rec['fields']:
                    if 'init' in f:
                        ff = _FakeFn(rec)
                        fr2 = Frame(ff, fr.depth, loc, fr)
                        ns = []
                        for s in states:
                            ns += self.init_loc(loc + (f['n'],), rec['types'][f['t']], f['init'], s, fr2)
                        states = ns
            return states
        out = []
        for s in self.ev_list_states(e['args'], st, fr):
            s = self.opaque_effects(e, s, fr)
            out.append(self.havoc(loc, s, T, ('ctor', self.site(e, fr))).set(loc + ('__alive',), 1))
        return out

    track_cls = False      # objects of classes with virtual functions remember their class in '__cls'

    def set_cls(self, st, loc, T):
        if not self.track_cls or not T:
            return st
        c = T['s'].replace('const ', '')
        memo = self.__dict__.setdefault('_poly', {})
        if c not in memo:
            memo[c] = self.poly(c)
        return st.set(loc + ('__cls',), ('str', c)) if memo[c] else st

    def poly(self, c):
        from .containers import bases, rec_of
        r = rec_of(self.P, c)
        return r is not None and (any(m.get('virt') for m in r['methods']) or any(self.poly(b) for b in bases(self.P, c)))

    def container_base(self, q):
        """The standard container that class q is derived from."""
        memo = self.__dict__.setdefault('_cbase', {})
        if q not in memo:
            from .containers import bases
            memo[q] = None
            for b in bases(self.P, q):
                b0 = strip_targs(b)
                memo[q] = b0 if 'ctor:' + b0 in self.models and b0.startswith('std::') else self.container_base(b)
                if memo[q]:
                    break
        return memo[q]

    def ev_ctor(self, e, st, fr):
        T = fr.fn.ty(e)
        q = e['q']
        h = self.models.get('ctorval:' + q)
        if h:
            return h(self, e, st, fr)
        if not self.is_objtype(T):
            if e.get('cm') and len(e['args']) == 1:
                return self.ev(e['args'][0], st, fr)
            if len(e['args']) == 1 and T and T.get('rec') in self.wrapper_classes:
                return self.ev_arg(e['args'][0], st, fr)
            out = []
            for s in self.ev_list_states(e['args'], st, fr):
                s = self.opaque_effects(e, s, fr)
                v, s = self.fresh(s, ('ctor', self.site(e, fr)))
                out.append((v, s))
            return out
        if e.get('cm') and len(e['args']) == 1:
            fn = self.P.funcs.get(e['fn'])
            if (q in self.value_classes or fn is None or fn.raw.get('defaulted')) and ('ctor:' + q) not in self.models:
                return [(('obj', l), s) for l, s in self.lv(e['args'][0], st, fr)]
        loc = ('t', fr.depth, self.site(e, fr))
        return [(('obj', loc), s) for s in self.construct(loc, e, st, fr)]

    value_classes = ()   # copied as a whole by their copy/move operations
    wrapper_classes = {'std::function', 'std::reference_wrapper'}

    # ------------------------------------------------------------------------------------------------ calls
    def ev_arg(self, a, st, fr):
        """Evaluates an argument of an opaque call (lvalues are passed by reference: their value is irrelevant)."""
        if a['k'] in ('ref', 'this', 'fref', 'enumc', 'int', 'str', 'bool', 'null', 'float'):
            if a['k'] == 'ref':
                return [(('lref', l), s) for l, s in self.lv(a, st, fr)]
            return self.ev(a, st, fr)
        if a['k'] in ('mem', 'idx') and not a.get('rv') and 'fn' not in a:
            return [(('lref', l), s) for l, s in self.lv(a, st, fr)]
        return self.ev(a, st, fr)

    def ev_args(self, args, fn, st, fr):
        """Evaluates arguments for parameters of fn: list of (tuple of ('val', v)|('ref', loc)|('obj', loc), st)."""
        res = [((), st)]
        for i, a in enumerate(args):
            P = fn.params[i] if i < len(fn.params) else None
            T = fn.types[P['t']] if P else None
            ns = []
            for vs, s in res:
                if T and T.get('ref'):
                    for l, s2 in self.lv(a, s, fr):
                        ns.append((vs + (('ref', l),), s2))
                else:
                    for v, s2 in self.ev_ptr(a, s, fr):
                        v = self.simplify(v, s2)
                        if isinstance(v, tuple) and v and v[0] == 'lref':
                            for v2, s3 in self.load(v[1], T, s2, fr):
                                ns.append((vs + (('val', v2),), s3))
                        else:
                            ns.append((vs + (('val', v),), s2))
            res = ns
        return res

    def should_inline(self, fn, e):
        if fn.body is None or fn.q in self.opaque:
            return False
        if len(self.stack) >= self.MAX_DEPTH:
            return False
        if self.stack.count(fn.key) >= 1 and not self.allow_recursion(fn):
            return False
        if self.inline_pred is not None:
            return self.inline_pred(fn, e)
        return True

    def allow_recursion(self, fn):
        return False

    def call_fn(self, fn, args, this, st, e, fr, closure=None):
        """Inlines fn: list of (return value, st)."""
        self.visited_funcs.add(fn.key)
        depth = fr.depth + 1
        if closure is not None:
            parent = Frame(fn, fr.depth, closure[3])
            for d, kind, x in closure[2]:
                parent.env[d] = ('refval', x) if kind == 'ref' else ('v', depth, ('cap', d))
            nf = Frame(fn, depth, None, parent)
            st = st.copy()
            for d, kind, x in closure[2]:
                if kind != 'ref':
                    st.mem[('v', depth, ('cap', d))] = x
        else:
            nf = Frame(fn, depth, this)
        st = st.copy()
        for P, a in zip(fn.params, args):
            loc = ('v', depth, P['d'])
            if a[0] == 'ref':
                nf.env[P['d']] = loc
                st.mem[loc + ('__ref',)] = a[1]
            else:
                v = a[1]
                nf.env[P['d']] = loc
                if isinstance(v, tuple) and v and v[0] == 'obj':
                    st = self.copy_obj(v[1], loc, st)
                else:
                    T = fn.types[P['t']]
                    if self.is_objtype(T) and isinstance(v, tuple) and v and v[0] == 's':
                        st.mem[loc + ('__o',)] = (v,)
                    else:
                        st.mem[loc] = v
        self.stack.append(fn.key)
        self.sinks.append([])
        try:
            states = [st]
            if fn.inits:
                for i in fn.inits:
                    ns = []
                    for s in states:
                        if 'm' in i:
                            ns += self.init_loc(this + (i['m'],), fn.types[i['mt']], i['e'], s, nf)
                        elif 'base' in i or i.get('deleg'):
                            if i['e'] and i['e']['k'] == 'ctor':
                                b = i['e']
                                f2 = self.P.funcs.get(b.get('fn'))
                                if b.get('q', '').startswith('std::') and 'ctor:' + b['q'] in self.models and self.container_base(fn.cls):
                                    ns += [s2 for _, s2 in self.models['ctor:' + b['q']](self, b, this, s, nf)]
                                elif f2 is not None and f2.body is not None and self.should_inline(f2, b) and ('ctor:' + b['q']) not in self.models:
                                    for args2, s2 in self.ev_args(b['args'], f2, s, nf):
                                        ns += [s3 for _, s3 in self.call_fn(f2, args2, this, s2, b, nf)]
                                else:
                                    ns += self.ev_list_states(b['args'], s, nf)
                            else:
                                ns.append(s)
                        else:
                            ns.append(s)
                    states = ns
            outs = []
            for s in dedupe(states) if len(states) > 1 else states:
                outs += self.ex(fn.body, s, nf)
        finally:
            self.stack.pop()
            sink = self.sinks.pop()
        for t, s in sink:
            self.sinks[-1].append((t, self.drop_frame(nf, s)))
        if self.inline_dtors or self.dtor_models:
            for P, x in zip(fn.params, args):
                if x[0] != 'ref' and self.has_dtor(fn.types[P['t']]):
                    outs = [(o, s2) for o, s in outs for s2 in self.run_dtor(P, s, nf)]
        rets = []
        RT = fn.types[fn.ret] if fn.ret >= 0 else None
        for o, s in outs:
            if o is None:
                v = VOID
            elif o[0] == 'ret':
                v = o[1]
            else:
                continue
            if self.ret_hook:
                self.ret_hook(fn, v, s, e, fr)
            # a returned object lives in the callee frame: move it to a temporary of the caller
            if isinstance(v, tuple) and v and v[0] == 'obj' and v[1][0] in ('v', 't') and v[1][1] == depth:
                loc = ('t', fr.depth, self.site(e, fr), 'ret')
                s = self.copy_obj(v[1], loc, s)
                v = ('obj', loc)
            elif isinstance(v, tuple) and v and v[0] == 'lref' and v[1][0] in ('v', 't') and len(v[1]) > 1 and v[1][1] == depth:
                loc = ('t', fr.depth, self.site(e, fr), 'ret')
                s = self.copy_obj(v[1], loc, s)
                v = ('lref', loc)
            rets.append((v, self.drop_frame(nf, s)))
        rets = dedupe2(rets)
        if len(rets) > 6:
            rets = dedupe2([(v, self.gc_keep(s, v)) for v, s in rets])
        return rets

    def gc_keep(self, s, v):
        s = s.copy()
        s.mem[('v', -1, 'ret')] = v
        s = self.gc(s)
        if ('v', -1, 'ret') in s.mem:
            s = s.copy()
            del s.mem[('v', -1, 'ret')]
        return s

    def opaque_effects(self, e, st, fr):
        """Effects of an unmodelled call: may throw when the rule says so."""
        if self.throw_hook:
            for t in self.throw_hook(e, st, fr) or ():
                self.throw(t, None, st, e, fr)
        return st

    def ev_call(self, e, st, fr, want_lv=False):
        r = self.do_call(e, st, fr)
        if want_lv:
            return r
        out = []
        T = fr.fn.ty(e)
        for v, s in r:
            if isinstance(v, tuple) and v and v[0] == 'lref':
                out += self.load(v[1], T, s, fr)
            else:
                out.append((v, s))
        return out

    def do_call(self, e, st, fr):
        q = e.get('q')
        if q is not None:
            h = self.models.get(q)
            if h is not None:
                r = h(self, e, st, fr)
                if r is not None:
                    return r
            for pred, h in self.model_pred:
                if pred(q, e):
                    r = h(self, e, st, fr)
                    if r is not None:
                        return r
        if 'callee' in e and e['callee'] is not None:
            out = []
            for f, s in self.ev(e['callee'], st, fr):
                out += self.call_value(f, e, s, fr)
            return out
        fn = self.P.funcs.get(e.get('fn'))
        if e.get('op') == '=' and self.value_classes and e.get('obj') is not None and len(e['args']) == 1:
            OT = fr.fn.ty(e['obj'])
            AT = fr.fn.ty(e['args'][0])
            if OT and AT and OT.get('rec') in self.value_classes and OT.get('rec') == AT.get('rec') and not OT.get('ptr'):
                out = []
                for l, s in self.lv(e['args'][0], st, fr):
                    for l2, s2 in self.lv(e['obj'], s, fr):
                        out.append((('lref', l2), self.write(l2, ('obj', l), s2, e, fr)))
                return out
        # closures called through operator()
        if e.get('op') == '()' and e.get('obj') is not None:
            OT = fr.fn.ty(e['obj'])
            if OT and (OT.get('lam') or e.get('lamcall')):
                out = []
                base = self.lambda_base(e, st, fr)
                for f, s in base if base is not None else self.ev(e['obj'], st, fr):
                    if isinstance(f, tuple) and f and f[0] == 'clo':
                        out += self.call_value(f, e, s, fr)
                    else:
                        out += self.opaque_call(e, s, fr)
                return out
        targets = None
        if e.get('virt'):
            if self.virt_hook:
                targets = self.virt_hook(e, st, fr)
            if targets is None:
                return self.opaque_call(e, st, fr)
            out = []
            for fn in targets:
                out += self.inline_call(fn, e, st, fr)
            return out
        if fn is not None and self.should_inline(fn, e):
            return self.inline_call(fn, e, st, fr)
        return self.opaque_call(e, st, fr)

    def lambda_base(self, e, st, fr):
        """The closure e calls if its object is composed of closures (m::overloaded), None otherwise."""
        fn = self.P.funcs.get(e.get('fn'))
        x = e['obj']
        while x['k'] in ('cast', 'icast', 'paren') and x.get('e'):
            x = x['e']
        XT = fr.fn.ty(x)
        if fn is None or not XT or not XT.get('rec') or XT.get('lam') or XT.get('ptr'):
            return None
        name = lam_name(fn.raw.get('clst') or '')
        if not name:
            return None
        out = []
        for l, s in self.lv(x, st, fr):
            f = s.mem.get(l + (('lam', name),))
            if f is None:
                return None
            out.append((f, s))
        return out

    def inline_call(self, fn, e, st, fr):
        out = []
        if fn.cls and not fn.static and e.get('obj') is not None:
            obj = e['obj']
            if e.get('arrow'):
                ls = []
                for v, s in self.ev(obj, st, fr):
                    ls += self.deref(v, s, e, fr)
            elif obj['k'] == 'this':
                ls = [(v[1], s) for v, s in self.ev(obj, st, fr)]
            else:
                OT = fr.fn.ty(obj)
                if OT and OT.get('ptr'):
                    ls = []
                    for v, s in self.ev(obj, st, fr):
                        ls += self.deref(v, s, e, fr)
                else:
                    ls = self.lv(obj, st, fr)
            for l, s in ls:
                for args, s2 in self.ev_args(e['args'], fn, s, fr):
                    out += self.call_fn(fn, args, l, s2, e, fr)
        else:
            for args, s2 in self.ev_args(e['args'], fn, st, fr):
                out += self.call_fn(fn, args, None, s2, e, fr)
        return out

    def obj_loc(self, e, st, fr):
        """Location of the implicit object of a member call."""
        obj = e['obj']
        OT = fr.fn.ty(obj)
        if e.get('arrow') or (OT and OT.get('ptr')):
            out = []
            for v, s in self.ev(obj, st, fr):
                out += self.deref(v, s, e, fr)
            return out
        return self.lv(obj, st, fr)

    def opaque_call(self, e, st, fr):
        self.visited_sites.add((fr.fn.key, e.get('l'), e.get('q')))
        states = [st]
        objv = None
        if e.get('obj') is not None and e['obj']['k'] not in ('ref', 'this', 'mem'):
            states = [s for _, s in self.ev_arg(e['obj'], st, fr)]
        elif e.get('obj') is not None and e['obj']['k'] == 'mem':
            states = [s for _, s in self.lv(e['obj'], st, fr)]
        out = []
        T = fr.fn.ty(e)
        fn = self.P.funcs.get(e.get('fn'))
        for s in states:
            for s2 in self.ev_list_states(e.get('args', []), s, fr):
                if e.get('nr'):
                    continue
                s2 = self.opaque_effects(e, s2, fr)
                # out-parameters: arguments passed by non-const reference or pointer may change
                for i, a in enumerate(e.get('args', [])):
                    s2 = self.havoc_arg(a, s2, fr, e, i)
                if T and T['s'] == 'void':
                    out.append((VOID, s2))
                    continue
                v, s2 = self.sym_for(s2, ('call', self.site(e, fr)), T)
                if T and self.is_objtype(T) and isinstance(v, tuple) and v[0] == 's':
                    v = ('obj', ('d', v))
                out.append((v, s2))
        return dedupe2(out)

    def havoc_arg(self, a, st, fr, e, i):
        if a['k'] == 'un' and a['op'] == '&' and a['e']['k'] in ('ref', 'mem'):
            T = fr.fn.ty(a)
            if T and T.get('pconst'):
                return st
            out = self.lv(a['e'], st, fr)
            if len(out) == 1:
                l, s = out[0]
                v, s = self.sym_for(s, ('out', self.site(e, fr), i), fr.fn.ty(a['e']))
                s = self.kill_prefix(l, s)
                return s.set(l, v) if not self.is_objtype(fr.fn.ty(a['e'])) else self.havoc(l, s, None, ('out', self.site(e, fr), i))
        return st

    def call_value(self, f, e, st, fr, argvals=None):
        """Calls a function value (closure or function pointer)."""
        f = self.simplify(f, st)
        if isinstance(f, tuple) and f and f[0] == 'lref':
            vs = self.load(f[1], None, st, fr)
            out = []
            for v, s in vs:
                out += self.call_value(v, e, s, fr, argvals)
            return out
        if isinstance(f, tuple) and f and f[0] == 'clo':
            key = f[1]
            if isinstance(key, tuple) and key[0] == 'gen':
                key = e.get('fn') if e.get('fn') in self.P.funcs else (key[1] if len(key) > 1 else None)
            fn = self.P.funcs.get(key)
            if fn is None:
                self.note_unknown('closure without body', fr, e)
                return self.opaque_call(e, st, fr)
            if self.stack.count(fn.key) >= 1 and not self.allow_recursion(fn):
                self.note_unknown('recursive closure', fr, e)
                return self.opaque_call(e, st, fr)
            if argvals is not None:
                return self.call_fn(fn, argvals, None, st, e, fr, closure=f)
            out = []
            for args, s in self.ev_args(e['args'], fn, st, fr):
                out += self.call_fn(fn, args, None, s, e, fr, closure=f)
            return out
        if isinstance(f, tuple) and f and f[0] == 'fn':
            fn = self.P.funcs.get(f[1])
            h = self.models.get(f[2]) if len(f) > 2 else None
            if h is not None:
                e2 = dict(e, _id=e.get('_id', id(e)))
                e2['fn'] = f[1]
                e2['q'] = f[2]
                e2.pop('callee', None)
                r = h(self, e2, st, fr)
                if r is not None:
                    return r
            if fn is not None and self.should_inline(fn, e):
                if argvals is not None:
                    return self.call_fn(fn, argvals, None, st, e, fr)
                out = []
                for args, s in self.ev_args(e['args'], fn, st, fr):
                    out += self.call_fn(fn, args, None, s, e, fr)
                return out
        e2 = dict(e, _id=e.get('_id', id(e)))
        e2.pop('callee', None)
        return self.opaque_call(e2, st, fr)

    # ------------------------------------------------------------------------------------------------ statements
    # outcome: None (normal), ('ret', v), ('break',), ('continue',), ('goto', label), ('igoto', v)
    def ex(self, n, st, fr):
        if n is None:
            return [(None, st)]
        if self.stmt_hook:
            r = self.stmt_hook(n, st, fr)
            if r is not None:
                return r
        k = n['k']
        m = getattr(self, 'ex_' + k, None)
        if m:
            return m(n, st, fr)
        return [(None, s) for _, s in self.ev_stmt_expr(n, st, fr)]

    def ev_stmt_expr(self, n, st, fr):
        r = self.ev_discard(n, st, fr)
        return [(None, s) for s in dedupe([s for _, s in r])]

    def ev_discard(self, n, st, fr):
        k = n['k']
        if k == 'asg':
            return self.assign(n, st, fr)
        if k == 'call':
            return self.do_call(n, st, fr)
        if k in ('ref', 'mem', 'int', 'str'):
            return [(None, st)]
        if k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
            return [(None, s) for _, s, _ in self.incdec(n, st, fr)]
        if k == 'cast' and n.get('ck') == 'ToVoid':
            return self.ev_discard(n['e'], st, fr)
        if k == 'bin' and n['op'] == ',':
            out = []
            for _, s in self.ev_discard(n['a'], st, fr):
                out += self.ev_discard(n['b'], s, fr)
            return out
        if k == 'bin' and n['op'] in ('&&', '||'):
            return self.cond(n, st, fr)
        if k == 'cond':
            out = []
            for b, s in self.cond(n['c'], st, fr):
                out += self.ev_discard(n['a'] if b else n['b'], s, fr)
            return out
        return self.ev(n, st, fr)

    def ex_nul(self, n, st, fr):
        return [(None, st)]

    def ex_block(self, n, st, fr):
        return self.ex_seq(n['b'], st, fr, n)

    def declared(self, stmts):
        out = []
        for s in stmts:
            while s and s['k'] in ('label', 'case', 'default'):
                s = s['s']
            if s and s['k'] == 'decl':
                for v in s['vs']:
                    out.append(v)
        return out

    def drop_temps(self, s, depth, keep=frozenset()):
        """Temporaries die at the end of their statement, unless something refers to them."""
        ts = {k[:3] for k in s.mem if k[0] == 't' and k[1] == depth}
        ts -= keep
        if not ts:
            return s
        used = set()

        def scan(v):
            if isinstance(v, tuple):
                if len(v) >= 3 and v[0] == 't':
                    used.add(v[:3])
                for x in v:
                    if isinstance(x, (tuple, frozenset)):
                        scan(x)
            elif isinstance(v, frozenset):
                for x in v:
                    scan(x)
        byb = {}
        for k, v in s.mem.items():
            if k[:3] in ts:
                byb.setdefault(k[:3], []).append((k, v))
            else:
                if isinstance(v, (tuple, frozenset)):
                    scan(v)
                for x in k[1:]:
                    if isinstance(x, (tuple, frozenset)):
                        scan(x)
        if s.mon is not None:
            scan(s.mon)
        done = set()
        while True:
            new = [b for b in used if b in byb and b not in done]
            if not new:
                break
            for b in new:
                done.add(b)
                for k, v in byb[b]:
                    scan(v)
        dead = ts - used
        if not dead:
            return s
        s = s.copy()
        for b in dead:
            for k, _ in byb[b]:
                del s.mem[k]
        return s

    def temps(self, s, depth):
        return frozenset(k[:3] for k in s.mem if k[0] == 't' and k[1] == depth)

    def ex_seq(self, stmts, st, fr, n, start=0):
        dtors = [v for v in self.declared(stmts) if self.has_dtor(fr.fn.types[v['t']])]
        if dtors:
            self.sinks.append([])
        out = []
        cur = [st]
        keep = self.temps(st, fr.depth)
        for i in range(start, len(stmts)):
            ns = []
            for s in cur:
                for o, s2 in self.ex(stmts[i], s, fr):
                    if o is None:
                        ns.append(self.drop_temps(s2, fr.depth, keep))
                    else:
                        out.append((o, s2 if o[0] == 'ret' else self.drop_temps(s2, fr.depth, keep)))
            cur = dedupe(ns) if len(ns) > 1 else ns
            if len(cur) > 24:
                cur = dedupe([self.gc(s) for s in cur])
                if len(cur) > self.MAX_STATES:
                    raise Limit('too many states in %s at %s' % (fr.fn.q, fr.fn.loc(stmts[i])))
            if not cur:
                break
        out += [(None, s) for s in cur]
        # goto to a label of this block
        gotos = [(o, s) for o, s in out if o and o[0] == 'goto']
        if gotos:
            labels = {}
            for i, x in enumerate(stmts):
                y = x
                while y and y['k'] in ('label',):
                    labels[y['n']] = i
                    y = y['s']
            rest = [(o, s) for o, s in out if not (o and o[0] == 'goto' and o[1] in labels)]
            todo = [(o, s) for o, s in gotos if o[1] in labels]
            if todo:
                seen = set()
                while todo:
                    o, s = todo.pop()
                    kk = (o, s.key())
                    if kk in seen:
                        continue
                    seen.add(kk)
                    for o2, s2 in self.ex_seq_nodtor(stmts, s, fr, n, labels[o[1]]):
                        if o2 and o2[0] == 'goto' and o2[1] in labels:
                            todo.append((o2, s2))
                        else:
                            rest.append((o2, s2))
                out = rest
        if dtors:
            sink = self.sinks.pop()
            for v in reversed(dtors):
                o2 = []
                for o, s in out:
                    o2 += [(o, s2) for s2 in self.run_dtor(v, s, fr)]
                out = o2
                k2 = []
                for t, s in sink:
                    k2 += [(t, s2) for s2 in self.run_dtor(v, s, fr)]
                sink = k2
            self.sinks[-1].extend(sink)
        # block-local variables die
        loc = [v for v in self.declared(stmts)]
        if loc:
            ds = {v['d'] for v in loc}
            for v in loc:
                for b in v.get('bind', []):
                    ds.add(b['d'])
            o2 = []
            for o, s in out:
                if o and o[0] == 'ret' and isinstance(o[1], tuple) and o[1] and o[1][0] in ('obj', 'lref'):
                    o2.append((o, s))
                    continue
                ks = [k for k in s.mem if k[0] == 'v' and k[1] == fr.depth and k[2] in ds]
                if ks:
                    s = s.copy()
                    for k in ks:
                        del s.mem[k]
                o2.append((o, s))
            out = o2
        return dedupe2(out) if len(out) > 1 else out

    def ex_seq_nodtor(self, stmts, st, fr, n, start):
        out = []
        cur = [st]
        keep = self.temps(st, fr.depth)
        for i in range(start, len(stmts)):
            ns = []
            for s in cur:
                for o, s2 in self.ex(stmts[i], s, fr):
                    if o is None:
                        ns.append(self.drop_temps(s2, fr.depth, keep))
                    else:
                        out.append((o, s2 if o[0] == 'ret' else self.drop_temps(s2, fr.depth, keep)))
            cur = dedupe(ns)
            if not cur:
                break
        return out + [(None, s) for s in cur]

    def has_dtor(self, T):
        if T is None or T.get('ptr') or T.get('ref'):
            return False
        r = T.get('rec')
        return r in self.dtor_models or r in self.inline_dtors

    def run_dtor(self, v, st, fr):
        loc = ('v', fr.depth, v['d'])
        if loc + ('__alive',) not in st.mem and loc not in st.mem:
            return [st]
        T = fr.fn.types[v['t']]
        r = T['rec']
        if r in self.dtor_models:
            return self.dtor_models[r](self, st, loc, fr, v)
        for f in self.P.funcs.values():
            if f.kind == 'dtor' and f.cls == r and f.body is not None:
                return [s for _, s in self.call_fn(f, (), loc, st, {'k': 'dtor', 'l': v.get('l', 0)}, fr)]
        return [st]

    def ex_decl(self, n, st, fr):
        states = [st]
        for v in n['vs']:
            T = fr.fn.types[v['t']]
            loc = ('v', fr.depth, v['d'])
            fr.env[v['d']] = loc
            ns = []
            for s in states:
                if v.get('static') and not self.static_as_local:
                    ns.append(s)
                    continue
                if 'init' in v and v['init'] is not None:
                    if T.get('ref'):
                        rs = self.init_loc(loc, T, v['init'], s, fr)
                    else:
                        rs = self.init_loc(loc, T, v['init'], self.kill_prefix(loc, s), fr)
                    if self.has_dtor(T):
                        rs = [r if (loc + ('__alive',)) in r.mem else r.set(loc + ('__alive',), 1) for r in rs]
                else:
                    s = self.kill_prefix(loc, s)
                    if not self.is_objtype(T) and not T.get('bt') == 'array':
                        if T.get('rec'):
                            d, s = self.fresh(s, ('decl', v['n'], v['d'], fr.fn.key))
                            s = s.set(loc, d)
                        else:
                            s = s.set(loc, UNINIT)
                    rs = [s]
                if v.get('static'):
                    g = ('g', '%s()::%s' % (fr.fn.q, v['n']))
                    rs = [r.set(g, r.mem[loc]) if loc in r.mem else r for r in rs]
                for b in v.get('bind', []):
                    rs2 = []
                    for s2 in rs:
                        rs2 += self.bind(v, b, loc, T, s2, fr)
                    rs = rs2
                ns += rs
            states = ns
        return [(None, s) for s in states]

    static_as_local = False

    def bind(self, v, b, loc, T, st, fr):
        idx = v['bind'].index(b)
        bl = ('v', fr.depth, b['d'])
        fr.env[b['d']] = bl
        if 'hd' in b:
            fr.env[b['hd']] = bl
        base = st.mem.get(loc + ('__ref',), loc)
        e = b.get('e')
        if e and e['k'] == 'mem':
            fld = e['n']
        else:
            rec = T.get('rec')
            if rec == 'std::pair':
                fld = ('first', 'second')[idx]
            elif rec == 'std::tuple':
                fld = ('i', idx)
            else:
                fld = ('i', idx)
        st = st.copy()
        # if the whole is a scalar symbol (opaque result), the parts are named after it
        bv = st.mem.get(base)
        if self.bind_hook is not None:
            l = self.bind_hook(bv, idx)
            if l is not None:
                st.mem[bl + ('__ref',)] = l
                return [st]
        if isinstance(bv, tuple) and bv and bv[0] == 's':
            base = ('d', bv)
        st.mem[bl + ('__ref',)] = base + (fld,)
        return [st]

    def ex_if(self, n, st, fr):
        states = [st]
        if n.get('init'):
            states = [s for o, s in self.ex(n['init'], st, fr)]
        if n.get('cvar'):
            ns = []
            for s in states:
                ns += [s2 for _, s2 in self.ex_decl({'k': 'decl', 'vs': [n['cvar']]}, s, fr)]
            states = ns
        out = []
        for s in states:
            if n.get('cx') and 'cxv' in n:
                bs = [(bool(n['cxv']), s)]
            else:
                bs = self.cond(n['c'], s, fr)
            for b, s2 in bs:
                br = n.get('a') if b else n.get('e')
                out += self.ex(br, s2, fr) if br else [(None, s2)]
        drop = set()
        if n.get('cvar'):
            drop.add(n['cvar']['d'])
        if n.get('init') and n['init']['k'] == 'decl':
            drop |= {v['d'] for v in n['init']['vs']}
        if drop:
            o2 = []
            for o, s in out:
                if not (o and o[0] == 'ret' and isinstance(o[1], tuple) and o[1] and o[1][0] in ('obj', 'lref')):
                    ks = [k for k in s.mem if k[0] == 'v' and k[1] == fr.depth and k[2] in drop]
                    if ks:
                        s = s.copy()
                        for k in ks:
                            del s.mem[k]
                o2.append((o, s))
            out = o2
        return dedupe2(out)

    def loop(self, n, heads, fr, cond, body, inc, post_cond=False):
        """Fixpoint over loop-head states."""
        out = []
        seen = set()
        work = [self.gc(s) for s in heads]
        keep = frozenset().union(*[self.temps(s, fr.depth) for s in heads]) if heads else frozenset()
        count = 0
        vals = {}
        wide = set()
        while work:
            s = work.pop(0)
            for k, v in s.mem.items() if self.WIDEN is not None else ():
                if isinstance(v, (int, float)) and not isinstance(v, bool) and k not in wide:
                    d = vals.setdefault(k, set())
                    d.add(v)
                    if len(d) > self.WIDEN:
                        wide.add(k)
            if wide:
                s2 = None
                for k in wide:
                    v = s.mem.get(k)
                    if isinstance(v, (int, float)):
                        if s2 is None:
                            s2 = s.copy()
                        w = ('s', ('widen', fr.fn.q, n.get('l', 0), k))
                        s2.mem[k] = w
                if s2 is not None:
                    s = self.gc(s2)
            s = self.drop_temps(s, fr.depth, keep)
            kk = s.key()
            if kk in seen:
                continue
            seen.add(kk)
            count += 1
            if count > self.MAX_STATES:
                raise Limit('too many loop states in %s at %s' % (fr.fn.q, fr.fn.loc(n)))
            if self.loop_hook:
                self.loop_hook(n, s, fr)
            if post_cond:
                bs = [(True, s)]
            else:
                bs = cond(s)
            for b, s2 in bs:
                if not b:
                    out.append((None, s2))
                    continue
                for o, s3 in body(s2):
                    if o is None or o[0] == 'continue':
                        for s4 in (inc(s3) if inc else [s3]):
                            if post_cond:
                                for b2, s5 in cond(s4):
                                    if b2:
                                        work.append(self.gc(s5))
                                    else:
                                        out.append((None, s5))
                            else:
                                work.append(self.gc(s4))
                    elif o[0] == 'break':
                        out.append((None, s3))
                    else:
                        out.append((o, s3))
        return dedupe2([(o, s) for o, s in out])

    loop_hook = None

    def ex_while(self, n, st, fr):
        def cond(s):
            if n.get('cvar'):
                out = []
                for _, s2 in self.ex_decl({'k': 'decl', 'vs': [n['cvar']]}, s, fr):
                    out += self.cond(n['c'], s2, fr)
                return out
            return self.cond(n['c'], s, fr)
        return self.loop(n, [st], fr, cond, lambda s: self.ex(n['b'], s, fr), None)

    def ex_do(self, n, st, fr):
        return self.loop(n, [st], fr, lambda s: self.cond(n['c'], s, fr), lambda s: self.ex(n['b'], s, fr), None, True)

    def ex_for(self, n, st, fr):
        heads = [st]
        if n.get('init'):
            heads = [s for o, s in self.ex(n['init'], st, fr)]

        def inc(s):
            if n.get('inc'):
                return dedupe([x for _, x in self.ev_discard(n['inc'], s, fr)])
            return [s]

        def cond(s):
            if n.get('c'):
                return self.cond(n['c'], s, fr)
            return [(True, s)]
        out = self.loop(n, heads, fr, cond, lambda s: self.ex(n['b'], s, fr), inc)
        if n.get('init') and n['init']['k'] == 'decl':
            ds = {v['d'] for v in n['init']['vs']}
            o2 = []
            for o, s in out:
                ks = [k for k in s.mem if k[0] == 'v' and k[1] == fr.depth and k[2] in ds]
                if ks and not (o and o[0] == 'ret' and isinstance(o[1], tuple) and o[1] and o[1][0] in ('obj', 'lref')):
                    s = s.copy()
                    for k in ks:
                        del s.mem[k]
                o2.append((o, s))
            out = dedupe2(o2)
        return out

    range_hook = None

    def ex_rfor(self, n, st, fr):
        states = [st]
        if n.get('init'):
            states = [s for o, s in self.ex(n['init'], st, fr)]
        out = []
        for s0 in states:
            if self.range_hook:
                r = self.range_hook(n, s0, fr)
                if r is not None:
                    out += r
                    continue
            if self.lower_ranges and n.get('beg') and n.get('rs') and n['r']['k'] != 'ilist':
                out += self.lowered_range(n, s0, fr)
                continue
            for rl, s in self.lv(n['r'], s0, fr) if n['r']['k'] != 'ilist' else self.ilist_range(n['r'], s0, fr):
                if isinstance(rl, list):
                    # explicit list of elements
                    cur = [s]
                    for x in rl:
                        ns = []
                        for s1 in cur:
                            for s2 in self.bind_loopvar(n, x, s1, fr):
                                for o, s3 in self.ex(n['b'], s2, fr):
                                    if o is None or o[0] == 'continue':
                                        ns.append(s3)
                                    elif o[0] == 'break':
                                        out.append((None, s3))
                                    else:
                                        out.append((o, s3))
                        cur = dedupe(ns)
                    out += [(None, x) for x in cur]
                    continue
                els = self.range_elems(n, rl, s, fr) if self.range_elems else None
                if els is not None:
                    out += self.known_range(n, els, s, fr)
                    continue
                out += self.opaque_range(n, rl, s, fr)
        d = n['v']['d']
        o2 = []
        for o, s in out:
            if not (o and o[0] == 'ret' and isinstance(o[1], tuple) and o[1] and o[1][0] in ('obj', 'lref')):
                ks = [k for k in s.mem if k[0] == 'v' and k[1] == fr.depth and k[2] == d]
                if ks:
                    s = s.copy()
                    for k in ks:
                        del s.mem[k]
            o2.append((o, s))
        return dedupe2(o2)

    lower_ranges = False      # iterate over ranges of unknown class by their own begin(), end(), != and ++

    def lowered_range(self, n, st, fr):
        out = []
        rd = n['rs']['vs'][0]
        for _, s in self.ex(n['rs'], st, fr):
            rl = s.mem.get(('v', fr.depth, rd['d'], '__ref'))
            els = self.range_elems(n, rl, s, fr) if self.range_elems and rl is not None else None
            if els is not None:
                out += self.known_range(n, els, s, fr)
                continue
            heads = [s3 for _, s2 in self.ex(n['beg'], s, fr) for _, s3 in self.ex(n['end'], s2, fr)]
            decl = {'k': 'decl', 'vs': [n['v']], 'l': n.get('l', 0)}
            out += self.loop(n, heads, fr, lambda x: self.cond(n['c'], x, fr),
                             lambda x: [r for _, x2 in self.ex_decl(decl, x, fr) for r in self.ex(n['b'], x2, fr)],
                             lambda x: dedupe([y for _, y in self.ev_discard(n['inc'], x, fr)]))
        ds = {v['d'] for k in ('rs', 'beg', 'end') for v in n[k]['vs']}
        o2 = []
        for o, s in out:
            ks = [k for k in s.mem if k[0] == 'v' and k[1] == fr.depth and k[2] in ds]
            if ks and not (o and o[0] == 'ret' and isinstance(o[1], tuple) and o[1] and o[1][0] in ('obj', 'lref')):
                s = s.copy()
                for k in ks:
                    del s.mem[k]
            o2.append((o, s))
        return o2

    def ilist_range(self, e, st, fr):
        return [([x for x in e['es']], st)]

    def bind_loopvar(self, n, x, st, fr):
        v = n['v']
        T = fr.fn.types[v['t']]
        loc = ('v', fr.depth, v['d'])
        fr.env[v['d']] = loc
        return self.init_loc(loc, T, x, self.kill_prefix(loc, st), fr)

    range_elems = None        # (node, range loc, st, fr) -> locations of the elements, or None if they are unknown

    def known_range(self, n, els, st, fr):
        v = n['v']
        T = fr.fn.types[v['t']]
        loc = ('v', fr.depth, v['d'])
        fr.env[v['d']] = loc
        out = []
        cur = [st]
        for el in els:
            ns = []
            for s in cur:
                s = self.kill_prefix(loc, s).copy()
                if T.get('ref'):
                    s.mem[loc + ('__ref',)] = el
                elif self.is_objtype(T):
                    s = self.copy_obj(el, loc, s)
                else:
                    val, s = self.read(el, T, s)
                    s = s.set(loc, val)
                rs = [s]
                for b in v.get('bind', []):
                    rs = [s3 for s2 in rs for s3 in self.bind(v, b, loc, T, s2, fr)]
                for s2 in rs:
                    for o, s3 in self.ex(n['b'], s2, fr):
                        if o is None or o[0] == 'continue':
                            ns.append(s3)
                        elif o[0] == 'break':
                            out.append((None, s3))
                        else:
                            out.append((o, s3))
            cur = dedupe(ns)
        return out + [(None, x) for x in cur]

    def opaque_range(self, n, rl, st, fr):
        """Iteration over an unmodelled container: any number of arbitrary elements."""
        v = n['v']
        T = fr.fn.types[v['t']]
        loc = ('v', fr.depth, v['d'])
        fr.env[v['d']] = loc

        def cond(s):
            return [(True, s), (False, s)]

        def body(s):
            el, s = self.fresh(s, ('elem', self.site(n, fr)))
            s = self.kill_prefix(loc, s)
            s = s.copy()
            if T.get('ref'):
                s.mem[loc + ('__ref',)] = ('d', el)
            elif self.is_objtype(T):
                s.mem[loc + ('__o',)] = ('d', el)
            else:
                val, s = self.read(('d', el), T, s)
                s.mem[loc] = val
            rs = [s]
            for b in v.get('bind', []):
                rs2 = []
                for s2 in rs:
                    rs2 += self.bind(v, b, loc, T, s2, fr)
                rs = rs2
            out = []
            for s2 in rs:
                if self.elem_hook:
                    s2 = self.elem_hook(n, rl, el, s2, fr)
                out += self.ex(n['b'], s2, fr)
            return out
        res = self.loop(n, [st], fr, cond, body, None)
        return res

    elem_hook = None

    def ex_switch(self, n, st, fr):
        states = [st]
        if n.get('init'):
            states = [s for o, s in self.ex(n['init'], st, fr)]
        if n.get('cvar'):
            ns = []
            for s in states:
                ns += [s2 for _, s2 in self.ex_decl({'k': 'decl', 'vs': [n['cvar']]}, s, fr)]
            states = ns
        body = n['b']
        stmts = body['b'] if body['k'] == 'block' else [body]
        flat = []
        labels = []   # (value or None for default, index)
        for s in stmts:
            while s and s['k'] in ('case', 'default'):
                if s['k'] == 'case':
                    lo = s['v'].get('cv', s['v'].get('v'))
                    hi = s['v2'].get('cv', s['v2'].get('v')) if s.get('v2') else lo
                    labels.append((lo, hi, len(flat)))
                else:
                    labels.append((None, None, len(flat)))
                s = s['s']
            flat.append(s)
        out = []
        for s0 in states:
            for v, s in self.ev(n['c'], s0, fr):
                for idx, s2 in self.switch_targets(v, labels, s, fr, n):
                    if idx is None:
                        out.append((None, s2))
                        continue
                    for o, s3 in self.ex_seq(flat, s2, fr, body, idx):
                        if o and o[0] == 'break':
                            out.append((None, s3))
                        else:
                            out.append((o, s3))
        return dedupe2(out)

    def switch_targets(self, v, labels, st, fr, n):
        v = self.simplify(v, st)
        dflt = None
        for lo, hi, i in labels:
            if lo is None:
                dflt = i
        if isinstance(v, int):
            for lo, hi, i in labels:
                if lo is not None and lo <= v <= hi:
                    return [(i, st)]
            return [(dflt, st)]
        ss = syms(v)
        if len(ss) == 1 and ss[0] in st.dom:
            s = ss[0]
            groups = {}
            for c in st.dom[s]:
                x = self.eval_term(v, {s: c})
                tgt = dflt
                for lo, hi, i in labels:
                    if lo is not None and isinstance(x, int) and lo <= x <= hi:
                        tgt = (i,)
                        break
                # group by label value, so that the domain is as precise as the source distinguishes
                groups.setdefault(tgt, set()).add(c)
            out = []
            for tgt, cs in groups.items():
                n2 = st.copy()
                n2.dom[s] = frozenset(cs)
                out.append((tgt[0] if isinstance(tgt, tuple) else tgt, n2))
            return out
        out = []
        rest = st
        for lo, hi, i in labels:
            if lo is None:
                continue
            c = self.fold('==', (v, lo)) if lo == hi else self.fold('&&', (self.fold('>=', (v, lo)), self.fold('<=', (v, hi))))
            nr = None
            if rest is None:
                break
            for b, s in self.split(c, rest):
                if b:
                    out.append((i, s))
                else:
                    nr = s
            rest = nr
        if rest is not None:
            out.append((dflt, rest))
        return out

    def ex_case(self, n, st, fr):
        return self.ex(n['s'], st, fr)

    def ex_default(self, n, st, fr):
        return self.ex(n['s'], st, fr)

    def ex_label(self, n, st, fr):
        return self.ex(n['s'], st, fr)

    def ex_goto(self, n, st, fr):
        return [(('goto', n['n']), st)]

    def ex_igoto(self, n, st, fr):
        return [(('igoto',), s) for _, s in self.ev_arg(n['e'], st, fr)]

    def ex_break(self, n, st, fr):
        return [(('break',), st)]

    def ex_continue(self, n, st, fr):
        return [(('continue',), st)]

    def ex_ret(self, n, st, fr):
        if not n.get('e'):
            return [(('ret', VOID), st)]
        RT = fr.fn.types[fr.fn.ret] if fr.fn.ret >= 0 else None
        if RT and RT.get('ref'):
            return dedupe2([(('ret', ('lref', l)), s) for l, s in self.lv(n['e'], st, fr)])
        out = []
        for v, s in self.ev_ptr(n['e'], st, fr):
            v = self.simplify(v, s)
            if isinstance(v, int) and RT and not RT.get('ptr'):
                v = self.wrap(v, RT)
            out.append((('ret', v), s))
        return dedupe2(out)

    def ex_try(self, n, st, fr):
        self.sinks.append([])
        out = self.ex(n['b'], st, fr)
        sink = self.sinks.pop()
        seen = set()
        for t, s in sink:
            kk = (t.typ, t.val, s.key())
            if kk in seen:
                continue
            seen.add(kk)
            handled = False
            for h in n['h']:
                if 'v' in h and h['v']:
                    T = fr.fn.types[h['t']]
                    name = T.get('rec') or T['s']
                    if not self.catches(name, t.typ):
                        continue
                    loc = ('v', fr.depth, h['v']['d'])
                    fr.env[h['v']['d']] = loc
                    s = s.copy()
                    if self.is_objtype(T):
                        s.mem[loc + ('__o',)] = ('exc', t.typ)
                    else:
                        s.mem[loc] = t.val if t.val is not None else ('s', ('exc', t.typ))
                elif 'v' in h or h.get('t', -1) >= 0:
                    T = fr.fn.types[h['t']] if h.get('t', -1) >= 0 else None
                    if T is not None and not self.catches(T.get('rec') or T['s'], t.typ):
                        continue
                if self.catch_hook:
                    s = self.catch_hook(n, h, t, s, fr)
                self.sinks.append([])
                r = self.ex(h['b'], s, fr)
                sk = self.sinks.pop()
                for t2, s2 in sk:
                    if t2.typ == '<rethrow>':
                        t2 = Thrown(t.typ, t.val, t2.node, t2.fn)
                    self.sinks[-1].append((t2, s2))
                out += r
                handled = True
                break
            if not handled:
                self.sinks[-1].append((t, s))
        return dedupe2(out)

    catch_hook = None

    # ------------------------------------------------------------------------------------------------ entry
    def run(self, fn, st, this=('root', 'this'), args=None, fr=None):
        """Analyses fn from state st: (list of (return value, st), list of (Thrown, st))."""
        top = Frame(fn, 0, this)
        if args is None:
            args = []
            for P in fn.params:
                T = fn.types[P['t']]
                if T.get('ref'):
                    args.append(('ref', ('root', 'arg:' + P['n'])))
                elif self.is_objtype(T):
                    args.append(('val', ('obj', ('root', 'arg:' + P['n']))))
                else:
                    v, st = self.sym_for(st, ('arg', P['n']), T)
                    args.append(('val', v))
        self.sinks.append([])
        rets = self.call_fn(fn, args, this, st, {'k': 'entry', 'l': fn.line}, top)
        sink = self.sinks.pop()
        return rets, sink


class _FakeFn:
    """Context for default member initialisers."""
    def __init__(self, rec):
        self.types = rec['types']
        self.files = {}
        self.file = rec['file']
        self.q = rec['q']
        self.key = rec['q']
        self.line = rec['ln']

    def ty(self, node):
        t = node.get('t', -1)
        return self.types[t] if t is not None and t >= 0 else None

    def loc(self, node=None):
        return '%s:%d' % (self.file, (node or {}).get('l', self.line))
