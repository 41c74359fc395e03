"""C03: object pools keep one object per value and count its handles exactly.

Handles: all histories of creating, copying, moving, converting, assigning, swapping and destroying handles are explored
abstractly; in every reachable configuration the counter of each object equals the number of live handles of it.
Pools: the lookup-or-insert operation is interpreted from every state of the table (value absent, present); for
thread-safe pools the table may change whenever the table lock is not held.
"""
from ..engine import Engine, NULL, VOID, State
from ..ir import AnalysisBroken, Program
from ..registry import check
from .locks import MX

TU = '/verif/drivers/pool.cpp'
E1, E2 = ('root', 'E', 1), ('root', 'E', 2)
POOL = ('root', 'POOL')
U = ('root', 'U')
GUARDS = {'m::reader_writer_lock', 'm::read_lock', 'm::write_lock', 'm::upgrade_lock'}


def args_of(cls):
    """template arguments of a printed class name, at top level"""
    d, cur, out = 0, '', []
    for ch in cls[cls.index('<') + 1:cls.rindex('>')]:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def bare(T):
    s = T['s']
    for x in ('const ', ' &&', ' &', '&'):
        s = s.replace(x, '') if x != 'const ' else (s[6:] if s.startswith(x) else s)
    return s.strip()


class Pools:
    def __init__(self, c):
        self.c = c
        self.P = Program([TU])
        self.E = E = Engine(self.P)
        E.inline_dtors = set(GUARDS) | {'m::Pooled'}
        M = E.models
        self.safe = False
        self.what = ''
        self.hist = []
        self.asserts = []
        for name, m in (('lock_read', 'r'), ('lock_write', 'w')):
            M[MX + '::' + name] = lambda E, e, st, fr, m=m: self.acquire(st, m, e, fr)
        for name, m in (('unlock_read', 'r'), ('unlock_write', 'w')):
            M[MX + '::' + name] = lambda E, e, st, fr, m=m: self.release(st, m, e, fr)
        for name, m in (('try_lock_read', 'r'), ('try_lock_write', 'w')):
            M[MX + '::' + name] = lambda E, e, st, fr, m=m: [(1, s) for _, s in self.acquire(st, m, e, fr)] + [(0, st)]
        M[MX + '::upgrade'] = self.upgrade
        E.model_pred.insert(0, (lambda q, e: q.startswith('m::OptField::operator'), lambda E, e, st, fr: [(('lref', POOL + ('mutex',)), st)]))
        # counters
        A = 'std::__atomic_base::'

        def step(d, post):
            def h(E, e, st, fr):
                out = []
                for l, s in E.obj_loc(e, st, fr):
                    v, s = E.read(l, None, s)
                    n = E.arith('+', (v, d)) if not isinstance(v, int) else v + d
                    out.append((v if post else n, s.set(l, n)))
                return out
            return h
        for n, d in (('operator++', 1), ('operator--', -1)):
            def inc(E, e, st, fr, d=d):
                return step(d, bool(e['args']))(E, e, st, fr)
            M[A + n] = inc
        for n, d in (('fetch_add', 1), ('fetch_sub', -1)):
            def fa(E, e, st, fr, d=d):
                v = E.ev(e['args'][0], st, fr)[0][0]
                if not isinstance(v, int):
                    raise AnalysisBroken('counter changes by an unknown amount')
                return step(d * v, True)(E, e, st, fr)
            M[A + n] = fa
            M['std::atomic::' + n] = fa

        def rd(E, e, st, fr):
            return [r for l, s in E.obj_loc(e, st, fr) for r in [E.read(l, None, s)]]
        E.model_pred.insert(0, (lambda q, e: q.startswith(A + 'operator unsigned') or q in (A + 'load', 'std::atomic::load', 'std::atomic::operator unsigned int'), rd))
        # table
        T = 'std::unordered_map::'
        M[T + 'find'] = self.find
        M[T + 'contains'] = lambda E, e, st, fr: [(int(v != ('end',)), s) for v, s in self.find(E, e, st, fr)]
        M[T + 'count'] = M[T + 'contains']
        for n in ('end', 'cend'):
            M[T + n] = lambda E, e, st, fr: [(('end',), st)]
        M[T + 'emplace_hint'] = lambda E, e, st, fr: self.insert(E, e, st, fr, 1, False)
        for n in ('emplace', 'try_emplace', 'insert'):
            M[T + n] = lambda E, e, st, fr: self.insert(E, e, st, fr, 0, True)
        M[T + 'erase'] = self.erase
        D = 'std::__detail::'

        def same(E, e, st, fr):
            ops = ([e['obj']] if 'obj' in e else []) + e['args']
            return [(int(a == b), s2) for a, s in E.ev(ops[0], st, fr) for b, s2 in E.ev(ops[1], s, fr)]
        M[D + 'operator=='] = same
        M[D + 'operator!='] = lambda E, e, st, fr: [(1 - v, s) for v, s in same(E, e, st, fr)]
        for k in ('_Node_iterator', '_Node_const_iterator', '_Node_iterator_base'):
            def star(E, e, st, fr, arrow=False):
                out = []
                for v, s in E.ev(e['obj'], st, fr):
                    if not (isinstance(v, tuple) and v and v[0] == 'it'):
                        self.fail('end', e, fr, 'the end iterator is dereferenced')
                        continue
                    out.append((('p', v[1]) if arrow else ('lref', v[1]), s))
                return out
            M[D + k + '::operator*'] = star
            M[D + k + '::operator->'] = lambda E, e, st, fr: star(E, e, st, fr, True)

            def asg(E, e, st, fr):
                return [(('lref', l), s2.set(l, v)) for l, s in E.lv(e['obj'] if 'obj' in e else e['args'][0], st, fr) for v, s2 in E.ev(e['args'][-1], s, fr)]
            M[D + k + '::operator='] = asg
            M['ctorval:' + D + k] = lambda E, e, st, fr: E.ev(e['args'][0], st, fr) if e['args'] else [(('end',), st)]
        # objects made from the pooled value

        def made(E, e, st, fr):
            return [(('made', l), s) for l, s in E.lv(e['args'][0], st, fr)] if e['args'] else [(('made', None), st)]
        M['std::make_unique'] = made
        M['std::identity::operator()'] = lambda E, e, st, fr: [(('lref', l), s) for l, s in E.lv(e['args'][0], st, fr)]
        M['m::as'] = lambda E, e, st, fr: self.cast(e, st, fr)
        M['m::is'] = lambda E, e, st, fr: [(1, st)]
        E.insist_hook = lambda e, s, f: self.asserts.append((e, f))
        E.abort_hook = lambda e, s, f: self.asserts.append((e, f))
        E.lv_hook = self.guard

        def assign(E, e, st, fr):
            dst, src = (e['obj'], e['args'][0]) if 'obj' in e else (e['args'][0], e['args'][1])
            return [(('lref', l), s2.set(l, v)) for l, s in E.lv(dst, st, fr) for v, s2 in E.ev(src, s, fr)]
        M['std::reference_wrapper::operator='] = assign

    def cast(self, e, st, fr):
        T = fr.fn.ty(e['args'][0]) or {}
        if T.get('rec') == 'std::unique_ptr' or not T.get('rec'):
            return self.E.ev(e['args'][0], st, fr)
        return [(('lref', l), s) for l, s in self.E.lv(e['args'][0], st, fr)]

    def fail(self, key, e, fr, msg):
        h = '; history: ' + ' ; '.join(self.hist) if self.hist else ''
        where = fr.fn.loc(e) if fr else self.where
        self.c.viol('C03:%s:%s' % (self.what, key), where, msg + h)

    # -- the table under its lock.  mon = (mode, handles made, registered element set)
    def acquire(self, st, m, e, fr):
        mode, mine = st.mon
        if mode:
            self.fail('deadlock', e, fr, 'the table lock is acquired while it is held')
            return []
        out = []
        for present in (None, 0, 1):
            s = st.copy()
            k = E1 + ('second',)
            if mine:                                    # our own handle keeps the element alive
                if present is None:
                    continue
                s.mem[k] = present + mine
                s.mem[('root', 'T', 1)] = 1
            else:
                s.mem[('root', 'T', 1)] = 0 if present is None else 1
                s.mem[k] = present or 0
            s.mem[('root', 'before')] = present or 0
            out.append((VOID, s.withmon((m, mine))))
        return out

    def release(self, st, m, e, fr):
        mode, mine = st.mon
        if mode != m:
            self.fail('unlock', e, fr, 'the table lock is released in a mode in which it is not held')
            return []
        return [(VOID, st.withmon(('', self.mine(st))))]

    def mine(self, st):
        return st.mem.get(('root', 'mine'), 0)

    def upgrade(self, E, e, st, fr):
        mode, mine = st.mon
        if mode != 'r':
            self.fail('upgrade', e, fr, 'upgrades without holding the read lock')
            return []
        return [(1, st.withmon(('w', mine))), (0, st)]

    def guard(self, e, l, st, fr):
        if self.safe and l[:2] == ('root', 'E') and not st.mon[0] and not self.holding(st, l[2]):
            self.fail('race', e, fr, 'accesses a pooled object without holding the table lock or a handle of it: it may have been erased')

    def holding(self, st, k):
        return self.live_handles

    def find(self, E, e, st, fr):
        out = []
        for l, s in self.keyloc(e['args'][0], st, fr):
            if self.safe and not s.mon[0]:
                self.fail('race', e, fr, 'looks up the table without holding its lock')
            if l == U:
                out.append((('it', E1) if s.mem.get(('root', 'T', 1)) else ('end',), s))
            else:
                self.fail('key', e, fr, 'looks up something other than the given value')
        return out

    def keyloc(self, a, st, fr):
        """The object whose value is the key: the argument itself or what it points to."""
        E = self.E
        T = fr.fn.ty(a) or {}
        out = []
        inner = a
        while inner['k'] == 'cast':
            inner = inner['e']
        if inner['k'] == 'un' and inner.get('op') == '&':
            return E.lv(inner['e'] if 'e' in inner else inner['a'], st, fr)
        if T.get('ptr'):
            for v, s in E.ev_ptr(a, st, fr):
                v = E.simplify(v, s)
                out.append((v[1] if isinstance(v, tuple) and v[0] == 'p' else ('?', v), s))
            return out
        for l, s in E.lv(a, st, fr):
            v = s.mem.get(l)
            if isinstance(v, tuple) and v and v[0] == 'p':
                l = v[1]
            out.append((l, s))
        return out

    def source(self, a, st, fr):
        """Does the inserted value come from the given one?"""
        out = []
        inner = a
        while inner['k'] == 'cast':
            inner = inner['e']
        T = fr.fn.ty(a) or {}
        if T.get('rec') == 'std::unique_ptr':
            for v, s in self.E.ev(a, st, fr):
                if isinstance(v, tuple) and v and v[0] == 'lref':
                    v = s.mem.get(v[1], v)
                out.append((v == ('made', U), s))
            return out
        for l, s in self.E.lv(a, st, fr):
            v = s.mem.get(l)
            out.append((l == U or v == ('lref', U) or v == ('s', ('init', U)), s))
        return out

    def insert(self, E, e, st, fr, skip, pair):
        out = []
        states = [st]
        if skip:
            states = [s for x in states for _, s in E.ev(e['args'][0], x, fr)]
        for s0 in states:
            if self.safe and s0.mon[0] != 'w':
                self.fail('race', e, fr, 'inserts into the table without holding the write lock')
            for ok, s in self.source(e['args'][skip], s0, fr):
                if not ok:
                    self.fail('value', e, fr, 'the inserted object is not made from the given value')
                    continue
                cnt = 0
                if len(e['args']) > skip + 1:
                    cnt, s = E.ev(e['args'][skip + 1], s, fr)[0]
                fresh = not s.mem.get(('root', 'T', 1))
                if fresh:
                    s = s.set(('root', 'T', 1), 1).set(E1 + ('second',), cnt)
                if pair:
                    loc = ('t', fr.depth, E.site(e, fr))
                    s = s.set(loc + ('first',), ('it', E1)).set(loc + ('second',), int(fresh)).set(loc + ('__alive',), 1)
                    out.append((('obj', loc), s))
                else:
                    out.append((('it', E1), s))
        return out

    def erase(self, E, e, st, fr):
        out = []
        a = e['args'][0]
        T = fr.fn.ty(a) or {}
        if 'iterator' in T.get('s', ''):
            r = [(v[1] if isinstance(v, tuple) and v[0] == 'it' else v, s) for v, s in E.ev(a, st, fr)]
        else:
            r = [(l[:3], s) for l, s in E.lv(a, st, fr)]
        for l, s in r:
            if self.safe and s.mon[0] != 'w':
                self.fail('race', e, fr, 'erases from the table without holding the write lock')
            n = s.mem.get(l + ('second',))
            if n != 0:
                self.fail('erase', e, fr, 'erases an object although %s handles refer to it' % (n,))
            out.append((1, s.set(('root', 'erased'), l)))
        return out

    # -- running things
    def call(self, fn, st, this, args):
        self.asserts = []
        self.where = fn.loc()
        rets, thrown = self.E.run(fn, st, this, args)
        self.thrown = thrown
        return rets

    def inst(self, q, clst=None, pred=None):
        return [f for f in self.P.by_q.get(q, []) if f.body is not None and (clst is None or f.raw.get('clst') == clst) and (pred is None or pred(f))]


class Handles:
    """Histories of three handles: two that always refer to an object and one that may refer to none."""
    def __init__(self, X, V, O):
        self.X, self.V, self.O = X, V, O
        self.kinds = {('root', 'v'): V, ('root', 'w'): V, ('root', 'o'): O}
        self.n = 0

    def fns(self, cls, kind=None, q=None):
        return [f for f in self.X.P.funcs.values() if f.raw.get('clst') == cls and f.body is not None and (kind is None or f.kind == kind) and (q is None or f.raw['n'] == q)]

    def ref(self, st, h):
        v = st.mem.get(h + ('ref_',))
        p = st.mem.get(h + ('pool_',))
        if v in (NULL, ('null',), 0, None):
            return None if p in (NULL, ('null',), 0, None) else 'inconsistent'
        if isinstance(v, tuple) and v[0] == 'p' and v[1] in (E1, E2):
            return v[1] if p == ('p', POOL) else 'inconsistent'
        raise AnalysisBroken('a handle refers to something unknown: %s' % (v,))

    def counts_ok(self, st, live, extra=()):
        refs = [self.ref(st, h) for h in list(live) + list(extra)]
        if 'inconsistent' in refs:
            return 'a handle has an object but no pool, or a pool but no object'
        for e in (E1, E2):
            n = st.mem.get(e + ('second',))
            if n != refs.count(e):
                return 'the counter of an object is %s although %d handles refer to it' % (n, refs.count(e))
        return None

    def destroy(self, st, h, cls):
        X = self.X
        ss = [st]
        for f in self.fns(cls, 'dtor'):
            ns = []
            for s in ss:
                r = X.call(f, s, h, [])
                if not r and X.asserts:
                    X.fail('dtor', X.asserts[0][0], X.asserts[0][1], 'destroying a handle fails an assertion')
                ns += [x for _, x in r]
            ss = ns
        return [X.E.kill_prefix(h, s) for s in ss]

    def argument(self, st, fn, i, src, how):
        """Initialises the by-value parameter from src; list of (location, state, class)."""
        X = self.X
        T = fn.types[fn.params[i]['t']]
        cls = bare(T)
        if T.get('ref'):
            return [(src, st, None)]
        tmp = ('root', 'tmp')
        srccls = self.kinds[src]
        out = []
        for f in self.fns(cls, 'ctor'):
            if len(f.params) == 1 and f.types[f.params[0]['t']].get('ref') and bare(f.types[f.params[0]['t']]) == srccls \
                    and ('&&' in f.types[f.params[0]['t']]['s']) == (how == 'move'):
                for _, s in X.call(f, st, tmp, [('ref', src)]):
                    out.append((tmp, s, cls))
        return out

    def explore(self):
        X = self.X
        st = State().withmon(('', 0))
        for e in (E1, E2):
            st.mem[e + ('second',)] = 0
        todo = [(st, frozenset(), ())]
        seen = set()
        while todo:
            st, live, hist = todo.pop(0)
            cfg = tuple((h, self.ref(st, h)) for h in sorted(live))
            if cfg in seen:
                continue
            seen.add(cfg)
            res = []

            def done(text, states, live2):
                self.n += 1
                X.hist = list(hist) + [text]
                for s in states:
                    X.c.ob()
                    m = self.counts_ok(s, live2)
                    if m:
                        X.fail('count', None, None, m)
                    else:
                        res.append((s, live2, hist + (text,)))

            def settle(text, fn, rets, live2):
                """checks for failing assertions and destroys returned handles"""
                X.hist = list(hist) + [text]
                if not rets and not X.thrown and X.asserts:
                    X.fail('assert', X.asserts[0][0], X.asserts[0][1], 'an assertion fails')
                out = []
                for v, s in rets:
                    if isinstance(v, tuple) and v and v[0] == 'obj':
                        cls = bare(fn.types[fn.ret])
                        m = self.counts_ok(s, live2, [v[1]])
                        X.c.ob()
                        if m:
                            X.fail('count', None, None, m + ' (with the returned handle)')
                            continue
                        out += self.destroy(s, v[1], cls)
                    else:
                        out.append(s)
                return out

            for h, cls in self.kinds.items():
                nm = h[1]
                X.what = 'Pooled'
                if h not in live:
                    for f in self.fns(cls, 'ctor'):
                        T = [f.types[p['t']] for p in f.params]
                        if not T:
                            X.where = f.loc()
                            done(nm + '()', [s for _, s in X.call(f, st, h, [])], live | {h})
                        elif len(T) == 2:
                            for e in (E1, E2):
                                t = '%s(pool, &e%d)' % (nm, e[2])
                                X.hist = list(hist) + [t]
                                done(t, settle(t, f, X.call(f, st, h, [('val', ('p', POOL)), ('val', ('p', e))]), live | {h}), live | {h})
                        else:
                            for p in live:
                                if bare(T[0]) != self.kinds[p]:
                                    continue
                                if cls == self.V and self.kinds[p] == self.O and self.ref(st, p) is None:
                                    continue        # requires a value
                                if self.ref(st, p) is None and self.kinds[p] == self.V:
                                    continue        # moved-from
                                mv = '&&' in T[0]['s']
                                t = '%s(%s%s)' % (nm, 'move ' if mv else '', p[1])
                                X.hist = list(hist) + [t]
                                old = self.ref(st, p)
                                ss = settle(t, f, X.call(f, st, h, [('ref', p)]), live | {h})
                                for s in ss:
                                    if self.ref(s, h) != old or (not mv and self.ref(s, p) != old):
                                        X.fail('copy', None, None, 'the new handle does not refer to the object of its source')
                                done(t, ss, live | {h})
                    continue
                mine = self.ref(st, h)
                X.hist = list(hist)
                for f in self.fns(cls):
                    if f.kind in ('ctor', 'dtor') or 'lambda' in f.q or f.raw['n'] in ('dump',) or f.raw['n'].startswith('operator<<'):
                        continue
                    t0 = '%s.%s' % (nm, f.raw['n'])
                    if not f.params:
                        if mine is None and f.raw['n'] not in ('count', 'has_value'):
                            if f.raw['n'] != 'assert_not_none':
                                continue
                            rets = X.call(f, st, h, [])
                            if rets or (not X.thrown and not X.asserts):
                                X.fail('none', None, None, 'assert_not_none() returns a handle although there is none')
                            continue
                        rets = X.call(f, st, h, [])
                        for v, s in rets:
                            X.hist = list(hist) + [t0]
                            X.c.ob()
                            if f.raw['n'] == 'count' and v != (s.mem[mine + ('second',)] if mine else 0):
                                X.fail('query', None, None, 'count() returns %s' % (v,))
                            if f.raw['n'] == 'has_value' and bool(v) != (mine is not None):
                                X.fail('query', None, None, 'has_value() is wrong')
                            if f.raw['n'] in ('operator*', 'operator->') and mine and isinstance(v, tuple) and v[0] in ('lref', 'p') and mine[:3] != v[1][:3] and mine[:3] != (v[1][1][1][:3] if v[1][0] == 'd' and isinstance(v[1][1], tuple) and v[1][1][0] == 's' and len(v[1][1]) > 1 and isinstance(v[1][1][1], tuple) and v[1][1][1][0] == 'init' else None) \
                                    and not self.inside(v[1], mine):
                                X.fail('query', None, None, 'dereferencing yields another object')
                        done(t0 + '()', settle(t0, f, rets, live), live)
                        continue
                    if len(f.params) != 1:
                        continue
                    for p in live:
                        if self.ref(st, p) is None and self.kinds[p] == self.V:
                            continue
                        for how in ('copy', 'move'):
                            t = '%s(%s%s)' % (t0, 'move ' if how == 'move' else '', p[1])
                            X.hist = list(hist) + [t]
                            if f.types[f.params[0]['t']].get('ptr'):
                                continue
                            if bare(f.types[f.params[0]['t']]) == self.V and self.kinds[p] == self.O and self.ref(st, p) is None:
                                continue
                            was = self.ref(st, p)
                            for loc, s1, tc in self.argument(st, f, 0, p, how):
                                rets = X.call(f, s1, h, [('ref', loc)])
                                ss = []
                                for v, s in rets:
                                    if f.raw['n'] == 'operator==' and bool(v) != (mine == was) and not (how == 'move' and p == h):
                                        X.fail('query', None, None, 'operator== does not compare the identity of the objects')
                                    if f.raw['n'] == 'operator!=' and bool(v) != (mine != was) and not (how == 'move' and p == h):
                                        X.fail('query', None, None, 'operator!= does not compare the identity of the objects')
                                    if f.raw['n'] == 'operator=' and self.ref(s, h) != was:
                                        X.fail('copy', None, None, 'the target of an assignment does not refer to the object of the source')
                                if not rets and X.asserts:
                                    X.fail('assert', X.asserts[0][0], X.asserts[0][1], 'an assertion fails')
                                for v, s in rets:
                                    ss += self.destroy(s, loc, tc) if tc else [s]
                                done(t, ss, live)
                for f in X.P.by_q.get('m::swap', []):
                    if bare(f.types[f.params[0]['t']]) == cls and f.body is not None:
                        for p in live:
                            if self.kinds[p] == cls and p != h:
                                t = 'swap(%s, %s)' % (nm, p[1])
                                X.where = f.loc()
                                ss = [s for _, s in X.call(f, st, None, [('ref', h), ('ref', p)])]
                                for s in ss:
                                    if self.ref(s, h) != self.ref(st, p) or self.ref(s, p) != mine:
                                        X.hist = list(hist) + [t]
                                        X.fail('swap', None, None, 'swap does not exchange the handles')
                                done(t, ss, live)
                X.hist = list(hist) + ['~' + nm]
                done('~' + nm, self.destroy(st, h, cls), live - {h})
            todo += res
        return len(seen)

    @staticmethod
    def inside(loc, e):
        return any(x == e for x in _sub(loc))


def _sub(x):
    yield x
    if isinstance(x, tuple):
        for i in range(1, len(x) + 1):
            yield x[:i]
        for y in x:
            if isinstance(y, tuple):
                yield from _sub(y)


@check('C03', 'Object pools: one object per value, exact handle counts, table only under its lock')
def run(c):
    X = Pools(c)
    X.live_handles = True
    flavours = sorted({f.raw['clst'] for q in ('m::PODPool::operator()', 'm::Pool::operator()') for f in X.inst(q)})
    c.floor('pool flavours', len(flavours), 4)
    configs = ops = 0
    for pool in flavours:
        safe = 'true' == args_of(pool)[-1] if 'PODPool' in pool else args_of(pool)[3] == 'true'
        # handles
        hs = sorted({f.raw['clst'] for f in X.inst('m::Pooled::~Pooled') if args_of(f.raw['clst'])[1] == pool and args_of(f.raw['clst'])[0] != 'drv::Base'})
        V = [h for h in hs if args_of(h)[2] == 'false']
        O = [h for h in hs if args_of(h)[2] == 'true']
        if len(V) != 1 or len(O) != 1:
            raise AnalysisBroken('anchor vanished: handles of ' + pool)
        X.safe = safe
        X.live_handles = True
        H = Handles(X, V[0], O[0])
        configs += H.explore()
        ops += H.n
        # lookup or insert
        X.hist = []
        X.live_handles = False
        X.what = pool[:30]
        base = 'm::PODPool' if 'PODPool' in pool else 'm::Pool'
        for f in X.inst(base + '::operator()', pool):
            X.where = f.loc()
            n = 0
            for present in (None, 0, 1):
                st = State().withmon(('', 0))
                st.mem[('root', 'T', 1)] = 0 if present is None else 1
                st.mem[E1 + ('second',)] = present or 0
                st.mem[E2 + ('second',)] = 1
                for v, s in X.call(f, st, POOL, [('ref', U)]):
                    n += 1
                    c.ob(4, True)
                    if not (isinstance(v, tuple) and v[0] == 'obj'):
                        raise AnalysisBroken('%s: result is not determined' % f.q)
                    if s.mon[0]:
                        X.fail('leak', None, None, 'returns with the table lock held')
                    r = s.mem.get(v[1] + ('ref_',))
                    if r != ('p', E1) or s.mem.get(v[1] + ('pool_',)) != ('p', POOL):
                        X.fail('result', None, None, 'the returned handle does not refer to the pooled object of the given value')
                        continue
                    if s.mem.get(('root', 'T', 1)) != 1:
                        X.fail('result', None, None, 'the returned object is not in the table')
                    k = s.mem.get(E1 + ('second',))
                    if k != s.mem.get(('root', 'before'), present or 0) + 1:
                        X.fail('count', None, None, 'the counter is %s after creating a handle' % k)
                    if s.mem.get(E2 + ('second',)) != 1 or s.mem.get(('root', 'erased')):
                        X.fail('others', None, None, 'another object is affected')
                if X.asserts:
                    X.fail('assert', X.asserts[0][0], X.asserts[0][1], 'an assertion can fail')
            c.floor('outcomes of %s' % f.raw['clst'][:48], n, 3)
        for f in X.inst(base + '::erase', pool):
            X.where = f.loc()
            for cnt in (0, 1, 2):
                st = State().withmon(('', 0))
                h = ('root', 'h')
                st.mem[h + ('ref_',)] = ('p', E1)
                st.mem[h + ('pool_',)] = ('p', POOL)
                st.mem[E1 + ('second',)] = cnt
                st.mem[('root', 'T', 1)] = 1
                st = st.withmon(('', 0))
                X.live_handles = False
                if not safe and cnt:
                    continue            # documented precondition
                X.erase_count = cnt
                for v, s in X.call(f, st, POOL, [('ref', h)]):
                    c.ob(2, True)
                    er = s.mem.get(('root', 'erased'))
                    cn = s.mem.get(E1 + ('second',))
                    if bool(v) != (er == E1):
                        X.fail('erase', None, None, 'the result does not tell whether the object was erased')
                    if er is not None and er != E1:
                        X.fail('erase', None, None, 'erases another object')
                    if er is None and cn == 0:
                        X.fail('erase', None, None, 'does not erase an unreferenced object')
                    if s.mon[0]:
                        X.fail('leak', None, None, 'returns with the table lock held')
    c.use(X.E)
    c.floor('handle configurations', configs, 100)
    c.floor('handle operations', ops, 2000)
    c.rule('Handles: all histories of three handles over two objects, for each pool flavour, explored to a fixpoint of '
           'configurations; in each the counter of an object equals the number of its handles. Pools: lookup-or-insert and erase '
           'from every table state, the table changing arbitrarily whenever its lock is not held; lookups need the lock, '
           'insertions and erasures the write lock, and an object is only touched under the lock or through a live handle.')
