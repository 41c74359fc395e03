"""C01: the reader-writer mutex and its RAII guards.

The mutex is treated as a monitor: every critical section (from acquiring the internal std::mutex to releasing it, in a
wait or at the end) is interpreted from every combination of the counters that the invariant allows, and its effect is
compared with the reference protocol below.  The guards are interpreted over a mutex that only keeps count of who owns
what; all histories of constructing, locking, unlocking, upgrading, moving and destroying two guards are explored up to
a fixpoint.
"""
import itertools

from ..engine import Engine, NULL, VOID, State
from ..ir import AnalysisBroken, Program, walk
from ..registry import check

TU = 'src/catalog/Catalog.cpp'
MX = 'm::reader_writer_mutex'
IN = 'm::detail::reader_writer_mutex_internal'
FIELDS = ('readers_waiting_', 'writers_waiting_', 'readers_active_', 'writer_active_', 'reader_wants_upgrade_')
RW, WW, RA, WA, UP = range(5)
TOP = 3
THIS = ('root', 'this')


def inv(q):
    if any(x < 0 for x in q):
        return 'a counter is negative'
    if q[WA] and (q[RA] or q[UP]):
        return 'a writer is active together with %s' % ('readers' if q[RA] else 'a pending upgrade')
    if q[UP] and (q[WW] < 1 or q[RA] < 1):
        return 'an upgrade is pending without its reader being active and registered as waiting writer'
    return None


def show(q):
    return '[readers waiting %d, writers waiting %d, readers active %d, writer active %d, upgrade pending %d]' % tuple(q)


# when may a thread of the class be granted; q includes the registration of the thread itself
GRANT = {
    'reader': lambda q: not q[WA] and not q[UP] and q[WW] == 0,
    'writer': lambda q: not q[WA] and q[RA] == 0,
    'upgrade': lambda q: not q[WA] and q[UP] and q[RA] == 1,
}
AFTER = {
    'reader': lambda q: (q[RW] - 1, q[WW], q[RA] + 1, q[WA], q[UP]),
    'writer': lambda q: (q[RW], q[WW] - 1, q[RA], 1, q[UP]),
    'upgrade': lambda q: (q[RW], q[WW] - 1, q[RA] - 1, 1, 0),
}


def waiters(q, own):
    """Other threads that may be blocked, per class."""
    up = 1 if q[UP] and not own[UP] else 0
    return {'reader': q[RW] - own[RW], 'writer': q[WW] - own[WW] - up, 'upgrade': up}


class Mutex:
    def __init__(self, c):
        self.c = c
        self.P = Program([TU])
        self.E = E = Engine(self.P)
        self.cv = {}
        self.op = None
        self.wait_cv = {}
        self.waited = set()
        self.waits = set()
        E.obj_std = {'std::unique_lock', 'std::lock_guard', 'std::scoped_lock'}
        M = E.models
        for k in ('unique_lock', 'lock_guard', 'scoped_lock'):
            M['ctor:std::' + k] = self.ctor
            E.dtor_models['std::' + k] = self.dtor
        M['std::unique_lock::unlock'] = lambda E, e, st, fr: self.each(e, st, fr, lambda s, l: self.release(s, l, e, fr))
        M['std::unique_lock::lock'] = lambda E, e, st, fr: self.each(e, st, fr, lambda s, l: self.acquire(s, l, e, fr))
        M['std::unique_lock::owns_lock'] = lambda E, e, st, fr: [(s.mem.get(l + ('__held',), 0), s) for l, s in E.obj_loc(e, st, fr)]
        M['std::unique_lock::operator bool'] = M['std::unique_lock::owns_lock']
        M['std::mutex::lock'] = lambda E, e, st, fr: [(VOID, x) for l, s in E.obj_loc(e, st, fr) for x in self.acquire(s, None, e, fr)]
        M['std::mutex::unlock'] = lambda E, e, st, fr: [(VOID, x) for l, s in E.obj_loc(e, st, fr) for x in self.release(s, None, e, fr)]
        M['std::condition_variable::wait'] = self.wait
        M['std::condition_variable::notify_one'] = lambda E, e, st, fr: self.notify(e, st, fr, 'one')
        M['std::condition_variable::notify_all'] = lambda E, e, st, fr: self.notify(e, st, fr, 'all')
        E.lv_hook = self.guard
        E.insist_hook = lambda e, s, f: self.viol(e, f, s, 'assert', 'an assertion of the lock can fail')
        E.abort_hook = lambda e, s, f: self.viol(e, f, s, 'abort', 'the lock can abort')

    def viol(self, e, fr, st, key, msg):
        self.c.viol('C01:%s:%s' % (self.op, key), fr.fn.loc(e) if fr else self.P.one(self.op).loc(), '%s (in %s, entered with %s)' % (msg, self.op, show(self.start)))

    # -- state
    def load(self, q, st):
        st = st.copy()
        for f, v in zip(FIELDS, q):
            st.mem[self.rw + (f,)] = v
        return st

    def q(self, st):
        r = []
        for f in FIELDS:
            v = st.mem.get(self.rw + (f,))
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, int):
                raise AnalysisBroken('%s: the value of %s is not determined (%s)' % (self.op, f, v))
            r.append(v)
        return tuple(r)

    # mon = (held, q0, own, pend, done, entered): whether the internal mutex is held, the state at its acquisition, what
    # this operation has added so far, wakeups still owed, wakeups issued in this section; self.base: what the caller holds
    def each(self, e, st, fr, f):
        return [(VOID, x) for l, s in self.E.obj_loc(e, st, fr) for x in f(s, l)]

    def ctor(self, E, e, loc, st, fr):
        args = e['args']
        tag = (fr.fn.ty(args[1]) or {}).get('rec') if len(args) > 1 else None
        st = E.kill_prefix(loc, st).set(loc + ('__alive',), 1)
        if tag == 'std::defer_lock_t':
            return [(VOID, st.set(loc + ('__held',), 0))]
        if tag == 'std::adopt_lock_t':
            return [(VOID, st.set(loc + ('__held',), 1))]
        if len(args) != 1:
            raise AnalysisBroken('%s: unexpected construction of a lock at %s' % (self.op, fr.fn.loc(e)))
        return [(VOID, s) for s in self.acquire(st, loc, e, fr)]

    def dtor(self, E, st, loc, fr, v):
        if st.mem.get(loc + ('__held',)) == 1:
            r = self.release(st, loc, {'l': v.get('l', 0)}, fr)
        else:
            r = [st]
        return [E.kill_prefix(loc, s) for s in r]

    def acquire(self, st, loc, e, fr):
        held, q0, own, pend, done, ent = st.mon
        if held:
            self.viol(e, fr, st, 'relock', 'the internal mutex is acquired while it is already held')
            return []
        if loc:
            st = st.set(loc + ('__held',), 1)
        if not ent:                                       # first critical section: the state chosen by the driver
            return [st.withmon((1, self.q(st), own, pend, frozenset(), 1))]
        return self.resume(st, own, pend)

    def resume(self, st, own, pend, at=None):
        """The internal mutex is acquired again after other threads ran."""
        out = []
        base = self.base
        for q in self.Q:
            o = tuple(a + b for a, b in zip(own, base))
            if any(q[i] < o[i] for i in range(5)):
                continue
            if base[WA] + own[WA] == 1 and not q[WA]:
                continue
            s = self.load(q, st)
            out.append(s.withmon((1, q, own, pend, frozenset(), 1)))
        return out

    def section_end(self, st, e, fr, what):
        held, q0, own, pend, done, ent = st.mon
        q1 = self.q(st)
        m = inv(q1)
        if m:
            self.viol(e, fr, st, 'invariant', '%s when the internal mutex is released %s: %s -> %s' % (m, what, show(q0), show(q1)))
        own1 = tuple(o + b - a for o, a, b in zip(own, q0, q1))
        # wakeups owed
        mine = tuple(a + b for a, b in zip(own1, self.base))
        w = waiters(q1, mine)
        owed = set(pend)
        for cls, n in w.items():
            if n > 0 and GRANT[cls](q1) and not GRANT[cls](q0):
                owed.add(cls)
        need = set()
        for cls in owed:
            cv = self.wait_cv.get(cls)
            same = [k for k, n in w.items() if n > 0 and self.wait_cv.get(k) == cv]
            total = sum(n for k, n in w.items() if self.wait_cv.get(k) == cv)
            one = total == 1 or (all(GRANT[k](q1) for k in same) and not any(GRANT[j](AFTER[k](q1)) for k in same for j in same))
            need.add((cls, cv, 'one' if one else 'all'))
        left = frozenset(x for x in need if not any(self.serves(d, x) for d in done))
        self.c.ob(2, True)
        return st.withmon((0, q0, own1, left, frozenset(), 1))

    @staticmethod
    def serves(d, x):
        return d[0] == x[1] and (d[1] == 'all' or x[2] == 'one')

    def release(self, st, loc, e, fr):
        if not st.mon[0]:
            self.viol(e, fr, st, 'unlock', 'the internal mutex is released without being held')
            return []
        if loc:
            st = st.set(loc + ('__held',), 0)
        return [self.section_end(st, e, fr, 'here')]

    def notify(self, e, st, fr, kind):
        out = []
        for l, s in self.E.obj_loc(e, st, fr):
            held, q0, own, pend, done, ent = s.mon
            d = (l[-1], kind)
            if held:
                done = done | {d}
            pend = frozenset(x for x in pend if not (len(x) == 3 and self.serves(d, x)))
            out.append((VOID, s.withmon((held, q0, own, pend, done, ent))))
        return out

    def wait(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            if not s.mon[0]:
                self.viol(e, fr, s, 'wait', 'waits without holding the internal mutex')
                continue
            cls = self.cls
            if cls is None:
                self.viol(e, fr, s, 'blocks', 'this operation must not wait')
                continue
            if self.wait_cv.setdefault(cls, l[-1]) != l[-1]:
                raise AnalysisBroken('%s waits on several condition variables' % self.op)
            locks = [x for x, s2 in E.lv(e['args'][0], s, fr)]
            lk = locks[0]
            if s.mem.get(lk + ('__held',)) != 1:
                self.viol(e, fr, s, 'wait', 'waits with a lock that is not held')
                continue
            if len(e['args']) == 1:
                out += [(VOID, x) for x in self.block(s, e, fr)]
                continue
            todo, seen = [s], set()
            while todo:
                x = todo.pop()
                for f, s1 in E.ev(e['args'][1], x, fr):
                    for v, s2 in E.call_value(f, e, s1, fr, []):
                        for b, s3 in E.split(v, s2):
                            if b:
                                out.append((VOID, s3))
                                continue
                            k = (self.q(s3), s3.mon)
                            if k in seen:
                                continue
                            seen.add(k)
                            todo += self.block(s3, e, fr)
        return out

    def block(self, st, e, fr):
        q = self.q(st)
        self.c.ob()
        self.waited.add((self.cls, q))
        if GRANT[self.cls](q):
            self.viol(e, fr, st, 'blocks', 'waits although the lock can be granted in %s' % show(q))
        s = self.section_end(st, e, fr, 'by waiting')
        held, q0, own, pend, done, ent = s.mon
        if pend:
            self.viol(e, fr, st, 'wakeup', self.owed(pend, 'blocks'))
        k = (own,)
        want = {'reader': (1, 0, 0, 0, 0), 'writer': (0, 1, 0, 0, 0), 'upgrade': (0, 1, 0, 0, 1)}[self.cls]
        if own != want:
            self.viol(e, fr, st, 'register', 'waits without being registered as waiting %s (registered: %s)' % (self.cls, show(own)))
        # what follows depends on the state found after waking up, not on the one that led here
        key = (self.op, own, e.get('_id', e.get('l')), self.load((0,) * 5, s).withmon(None).key())
        self.has_blocked = True
        if key in self.waits:
            return []
        self.waits.add(key)
        return self.resume(s, own, frozenset())

    def owed(self, pend, when):
        cls, cv, kind = sorted(pend)[0]
        return ('%s without waking the waiting %s whose condition has become true: needs notify_%s on %s%s'
                % (when, cls, kind, cv, ', because a notify_one may wake a waiter whose condition is false' if kind == 'all' else ''))

    # -- lock discipline
    def guard(self, e, l, st, fr):
        if l[-1] in FIELDS and l[:-1] == self.rw and not st.mon[0]:
            self.viol(e, fr, st, 'race', 'accesses %s without holding the internal mutex' % l[-1])

    # -- driver
    def drive(self, name, cls, pre, base, want, grant=None, ret=None):
        """want(q, result) -> (expected own contribution) ; ret: result -> grant relation"""
        fn = self.P.one(MX + '::' + name)
        self.op, self.cls, self.base = MX + '::' + name, cls, base
        n = 0
        for q in self.Q:
            if not pre(q):
                continue
            self.start = q
            st = self.load(q, State()).withmon((0, None, (0,) * 5, frozenset(), frozenset(), 0))
            self.has_blocked = False
            rets, thrown = self.E.run(fn, st, THIS, [])
            for t, s in thrown:
                self.viol(None, None, s, 'throws', 'throws an exception')
            results = set()
            for v, s in rets:
                held, q0, own, pend, done, ent = s.mon
                q0 = q0 or q
                self.c.ob(3, True)
                n += 1
                if held:
                    self.viol(None, None, s, 'leak', 'returns with the internal mutex held')
                    continue
                if pend:
                    self.viol(None, None, s, 'wakeup', self.owed(pend, 'returns'))
                res = None
                if fn.types[fn.raw['ret']].get('bt') == 'bool' if 'ret' in fn.raw else isinstance(v, (bool, int)):
                    if not isinstance(v, (bool, int)):
                        raise AnalysisBroken('%s: result is not determined' % self.op)
                    res = bool(v)
                results.add(res)
                w = want(q0, q, res)
                if w is None:
                    self.viol(None, None, s, 'result', 'returns %s in %s' % (res, show(q0)))
                elif isinstance(w, str):
                    self.viol(None, None, s, 'result', w)
                elif own != w:
                    self.viol(None, None, s, 'effect', 'changes the counters by %s but must change them by %s' % (show(own), show(w)))
            if not rets and not self.has_blocked:
                self.viol(None, None, st, 'stuck', 'never returns')
        return n


@check('C01', 'Reader-writer mutex: exclusion, no lost wakeup, and lock ownership')
def run(c):
    m = Mutex(c)
    rec = m.P.recs.get(MX)
    if rec is None:
        raise AnalysisBroken('anchor vanished: class ' + MX)
    rw = [f['n'] for f in rec['fields'] if rec['types'][f['t']].get('rec') == IN]
    if not rw:
        raise AnalysisBroken('anchor vanished: the state of ' + MX)
    m.rw = THIS + (rw[0],)
    have = {f['n'] for f in m.P.recs[IN]['fields']}
    if have != set(FIELDS):
        raise AnalysisBroken('the state of the mutex has other members: %s' % sorted(have))
    m.Q = [q for q in itertools.product(range(TOP + 1), range(TOP + 1), range(TOP + 1), (0, 1), (0, 1)) if inv(q) is None]
    Z = (0,) * 5

    def grant(cls, delta):
        def want(q0, q, res):
            # q0: state when the internal mutex was last acquired
            ok = {'reader': not q0[WA] and not q0[UP] and (q0[WW] == 0),
                  'writer': not q0[WA] and q0[RA] == 0,
                  'upgrade': not q0[WA] and q0[RA] == 1}[cls]
            if not ok:
                return 'grants the %s in %s' % ({'reader': 'read lock', 'writer': 'write lock', 'upgrade': 'upgrade'}[cls], show(q0))
            return delta
        return want
    n = 0
    up = grant('upgrade', (0, 0, -1, 1, 0))
    TRUE = lambda q: True
    # the waiting operations come first: they establish which condition variable each class waits on
    n += m.drive('lock_read', 'reader', TRUE, Z, grant('reader', (0, 0, 1, 0, 0)))
    n += m.drive('lock_write', 'writer', TRUE, Z, grant('writer', (0, 0, 0, 1, 0)))
    n += m.drive('upgrade', 'upgrade', lambda q: q[RA] >= 1 + q[UP], (0, 0, 1, 0, 0),
                 lambda q0, q, r: (up(q0, q, r) if r else ('refuses an upgrade although none is pending' if not q[UP] else Z)) if not (r and q[UP])
                 else 'grants an upgrade although another one is pending')
    if set(m.wait_cv) != {'reader', 'writer', 'upgrade'}:
        raise AnalysisBroken('not every class of waiters waits on a condition variable: %s' % m.wait_cv)
    for name, cls, d in (('try_lock_read', 'reader', (0, 0, 1, 0, 0)), ('try_lock_write', 'writer', (0, 0, 0, 1, 0))):
        g = grant(cls, d)
        n += m.drive(name, None, TRUE, Z, lambda q0, q, r: g(q0, q, r) if r else
                     (Z if not GRANT[cls](q0) else 'refuses the lock although it is available in %s' % show(q0)))
    n += m.drive('unlock_read', None, lambda q: q[RA] >= 1 + q[UP], (0, 0, 1, 0, 0), lambda q0, q, r: (0, 0, -1, 0, 0))
    n += m.drive('unlock_write', None, lambda q: q[WA] == 1, (0, 0, 0, 1, 0), lambda q0, q, r: (0, 0, 0, -1, 0))
    c.use(m.E)
    c.stat('monitor states', len(m.Q))
    c.floor('operation outcomes', n, 300)
    c.floor('blocking states', len(m.waited), 30)
    c.rule('Mutex: every critical section of every operation is interpreted from every counter state that the invariant allows '
           '(counters up to %d); invariant, grant conditions, net effect, registration while waiting, lock discipline and the '
           'wakeups owed to waiters are compared with the reference protocol. Guards: all histories of two guards over two mutexes '
           'are explored to a fixpoint; the locks held equal the locks that live guards own.' % TOP)
    Guards(c).run()


# ---------------------------------------------------------------------------------------------------------- guards
CLASSES = ('m::reader_writer_lock', 'm::read_lock', 'm::write_lock', 'm::upgrade_lock')
ACCESSORS = {'owns_read_lock': 'r', 'owns_write_lock': 'w', 'owns_lock': None}
MUTS = (('root', 'M1'), ('root', 'M2'))


class Guards:
    """mon = (counts, bad): counts maps (mutex, 'r'|'w') to the number of locks currently held."""
    def __init__(self, c):
        self.c = c
        self.P = Program(['/verif/drivers/locks.cpp'])
        self.E = E = Engine(self.P)
        M = E.models
        self.bad = None
        for name, kind, d in (('lock_read', 'r', 1), ('lock_write', 'w', 1), ('unlock_read', 'r', -1), ('unlock_write', 'w', -1)):
            M[MX + '::' + name] = self.op(kind, d)
        for name, kind in (('try_lock_read', 'r'), ('try_lock_write', 'w')):
            M[MX + '::' + name] = self.tryop(kind)
        M[MX + '::upgrade'] = self.upgrade
        E.insist_hook = lambda e, s, f: self.asserts.append((e, f))
        E.abort_hook = lambda e, s, f: self.asserts.append((e, f))

        def assign(E, e, st, fr):
            dst, src = (e['obj'], e['args'][0]) if 'obj' in e else (e['args'][0], e['args'][1])
            return [(('lref', l), s2.set(l, v)) for l, s in E.lv(dst, st, fr) for v, s2 in E.ev(src, s, fr)]
        M['std::reference_wrapper::operator='] = assign

    def count(self, st, loc, kind, d):
        m = dict(st.mon)
        m[(loc, kind)] = m.get((loc, kind), 0) + d
        return st.withmon(tuple(sorted((k, v) for k, v in m.items() if v)))

    def op(self, kind, d):
        def h(E, e, st, fr):
            out = []
            for l, s in E.obj_loc(e, st, fr):
                if l not in MUTS:
                    raise AnalysisBroken('%s: operates on an unknown mutex' % fr.fn.loc(e))
                if d < 0 and dict(s.mon).get((l, kind), 0) < 1:
                    self.fail(e, fr, 'releases a %s lock of a mutex that it does not hold' % ('read' if kind == 'r' else 'write'))
                    continue
                out.append((VOID, self.count(s, l, kind, d)))
            return out
        return h

    def tryop(self, kind):
        return lambda E, e, st, fr: [r for l, s in E.obj_loc(e, st, fr) for r in ((1, self.count(s, l, kind, 1)), (0, s))]

    def upgrade(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            if dict(s.mon).get((l, 'r'), 0) < 1:
                self.fail(e, fr, 'upgrades a read lock that it does not hold')
                continue
            out.append((1, self.count(self.count(s, l, 'r', -1), l, 'w', 1)))
            out.append((0, s))
        return out

    def fail(self, e, fr, msg):
        self.c.viol('C01:%s:%s' % (self.cls, msg[:40]), fr.fn.loc(e) if fr else self.where, '%s; history: %s' % (msg, ' ; '.join(self.hist)))

    # -- objects
    def methods(self, cls):
        """methods callable on an object of the class, including those of public or re-exported bases"""
        rec = self.P.recs[cls]
        out = {}
        for b in rec['bases']:
            bq = rec['types'][b].get('rec')
            if bq in self.P.recs:
                out.update(self.methods(bq))
        for f in self.P.funcs.values():
            if f.cls == cls and f.body is not None and f.kind not in ('ctor', 'dtor'):
                out[f.q.split('::')[-1]] = f
        return out

    def bases(self, cls):
        rec = self.P.recs[cls]
        return [rec['types'][b].get('rec') for b in rec['bases'] if rec['types'][b].get('rec') in self.P.recs]

    def call(self, fn, st, this, args):
        self.asserts = []
        rets, thrown = self.E.run(fn, st, this, args)
        if thrown:
            self.fail(None, None, '%s throws' % fn.q)
        return rets

    def destroy(self, cls, st, this):
        states = [st]
        for f in self.P.funcs.values():
            if f.cls == cls and f.kind == 'dtor' and f.body is not None and not f.raw.get('defaulted'):
                ns = []
                for s in states:
                    r = self.call(f, s, this, [])
                    if not r and self.asserts:
                        e, fr = self.asserts[0]
                        self.fail(e, fr, 'the destructor fails an assertion')
                    ns += [x for _, x in r]
                states = ns
        for b in self.bases(cls):
            states = [y for s in states for y in self.destroy(b, s, this)]
        return [self.E.kill_prefix(this, s) for s in states]

    def claims(self, cls, st, this):
        out = []
        for n, k in ACCESSORS.items():
            f = self.methods(cls).get(n)
            if f is None:
                continue
            if k is None:
                k = 'w' if 'write' in f.cls else 'r'
            if cls == 'm::upgrade_lock' and n == 'owns_lock':
                continue
            vs = {bool(v) for v, _ in self.call(f, st, this, []) if isinstance(v, (int, bool))}
            if len(vs) != 1:
                raise AnalysisBroken('%s: result of %s is not determined' % (cls, n))
            if vs.pop():
                out.append(k)
        return out

    def run(self):
        for cls in CLASSES:
            if cls not in self.P.recs:
                raise AnalysisBroken('anchor vanished: class ' + cls)
            self.explore(cls)
        self.c.use(self.E)

    def explore(self, cls):
        self.cls = cls
        self.where = '%s:%d' % (self.P.recs[cls]['file'], self.P.recs[cls]['ln'])
        c = self.c
        meth = self.methods(cls)
        ctors = [f for f in self.P.funcs.values() if f.cls == cls and f.kind == 'ctor']
        A, B = ('root', 'A'), ('root', 'B')
        plain, movers = [], []
        for f in ctors:
            T = [f.types[p['t']] for p in f.params]
            if len(T) == 1 and T[0].get('ref') and cls in T[0]['s']:
                movers.append((f, 'copy' if 'const' in T[0]['s'] else 'move'))
            elif T and MX in T[0]['s']:
                plain.append((f, [t['s'] for t in T[1:]]))
        assigns = [f for n, f in meth.items() if n == 'operator=' and f.cls == cls]
        for m in self.P.recs[cls]['methods']:
            if m.get('sp') in ('copyctor', 'copyassign') and not m.get('deleted'):
                self.hist = ['the class can be copied']
                self.fail(None, None, 'the guard is copyable')
        swaps = [f for f in self.P.by_q.get('m::swap', []) if f.params and f.types[f.params[0]['t']]['s'].startswith(cls)]
        start = State().withmon(())
        todo = [((False, False), start, ())]
        seen = set()
        nops = 0
        while todo:
            (la, lb), st, hist = todo.pop(0)
            key = (la, lb, st.key())
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 4000:
                raise AnalysisBroken('%s: the histories do not converge' % cls)
            if len(hist) > 8:
                hist = hist[:2] + ('...',) + hist[-5:]
            live = {A: la, B: lb}
            steps = []

            def step(text, states, live2, owned=0):
                steps.append((text, states, live2))

            def go(text, fn, this, args, live2, s0=st, post=None):
                self.hist = list(hist) + [text]
                before = len(c.violations)
                rets = self.call(fn, s0, this, args)
                c.ob()
                if not rets and self.asserts and len(c.violations) == before:
                    e, fr = self.asserts[0]
                    self.fail(e, fr, 'an assertion fails')
                res = []
                for v, s in rets:
                    if post is not None:
                        m = post(v, s)
                        c.ob()
                        if m:
                            self.fail(None, None, m)
                            continue
                    if isinstance(v, tuple) and v and v[0] == 'obj':
                        res += self.returned(fn, v[1], s, {o: l for o, l in live2.items()}, cls)
                    else:
                        res.append(s)
                step(text, res, live2)

            nm = {A: 'a', B: 'b'}
            for o in (A, B):
                if not live[o]:
                    for fn, tags in plain:
                        def made(v, s, o=o, tags=tags):
                            k = {'m::write_lock': ['w'], 'm::reader_writer_lock': []}.get(cls, ['r'])
                            if any('defer' in t for t in tags):
                                k = []
                            return self.owns(cls, s, o, k, 'the constructor')
                        for mx in MUTS:
                            s0, text = st, '%s(%s%s)' % (nm[o], mx[1], ''.join(', ' + t for t in tags))
                            if any('adopt' in t for t in tags):
                                k = 'w' if cls == 'm::write_lock' else 'r'
                                if dict(st.mon).get((mx, k), 0) > 1:
                                    continue
                                s0 = self.count(st, mx, k, 1)
                            args = [('ref', mx)] + [('val', ('s', 'tag'))] * len(tags)
                            go(text, fn, o, args, live | {o: True}, s0, made)
                    for fn, how in movers:
                        p = B if o == A else A
                        if live[p] and how == 'move':
                            go('%s(std::move(%s))' % (nm[o], nm[p]), fn, o, [('ref', p)], live | {o: True}, st, self.moved(cls, o, p, self.claims(cls, st, p)))
                    continue
                mine = self.claims(cls, st, o)
                for n, fn in meth.items():
                    if fn.params or n in ACCESSORS:
                        continue
                    if n in ('lock', 'lock_read', 'lock_write') or n.startswith('try_lock'):
                        if mine:
                            continue
                    elif n == 'unlock':
                        if not mine:
                            continue
                    elif n == 'upgrade':
                        if mine != ['r']:
                            continue
                    elif n.startswith('operator'):
                        continue
                    def done(v, s, o=o, n=n):
                        if n == 'unlock':
                            return self.owns(cls, s, o, [], 'unlock()')
                        if n == 'upgrade':
                            k = self.claims(cls, s, o)
                            if 'r' in k:
                                return 'after an upgrade the guard still holds its read lock'
                            if cls == 'm::reader_writer_lock' and v not in (0, 1, True, False):
                                raise AnalysisBroken('the result of upgrade() is not determined')
                            if cls == 'm::reader_writer_lock' and bool(v) != (k == ['w']):
                                return 'the result of upgrade() does not tell whether the write lock is held'
                        if n.startswith('lock'):
                            k = {'lock_read': ['r'], 'lock_write': ['w']}.get(n, ['w'] if cls == 'm::write_lock' else ['r'])
                            return self.owns(cls, s, o, k, n + '()')
                    go('%s.%s()' % (nm[o], n), fn, o, [], live, st, done)
                for fn in assigns:
                    for p in (A, B):
                        if live[p]:
                            go('%s = std::move(%s)' % (nm[o], nm[p]), fn, o, [('ref', p)], live, st, self.moved(cls, o, p, self.claims(cls, st, p), True) if p != o else None)
                for fn in swaps:
                    if live[B] and live[A] and o == A:
                        go('swap(a, b)', fn, None, [('ref', A), ('ref', B)], live)
                self.hist = list(hist) + ['~%s' % nm[o]]
                steps.append(('~%s' % nm[o], self.destroy(cls, st, o), live | {o: False}))
            for text, states, live2 in steps:
                nops += 1
                for s in states:
                    h2 = hist + (text,)
                    self.hist = list(h2)
                    c.ob()
                    if not self.conserved(cls, s, live2):
                        continue
                    todo.append(((live2[A], live2[B]), s, h2))
        c.floor('histories of ' + cls, nops, 40)

    def owns(self, cls, s, o, want, what):
        if self.claims(cls, s, o) != want:
            return 'after %s the guard owns %s but must own %s' % (what, self.claims(cls, s, o) or 'nothing', want or 'nothing')

    def moved(self, cls, o, p, had, assign=False):
        def post(v, s):
            m = self.owns(cls, s, o, had, 'the move')
            if m is None and not assign and o != p:
                m = self.owns(cls, s, p, [], 'being moved from')
            return m
        return post

    def conserved(self, cls, s, live, extra=()):
        have = {}
        for (mx, k), n in dict(s.mon).items():
            have[k] = have.get(k, 0) + n
        want = {}
        for o, l in live.items():
            if l:
                for k in self.claims(cls, s, o):
                    want[k] = want.get(k, 0) + 1
        for k in extra:
            want[k] = want.get(k, 0) + 1
        for k in 'rw':
            a, b = have.get(k, 0), want.get(k, 0)
            if a > b:
                self.fail(None, None, '%s still held although no guard owns it' % ('a read lock is' if k == 'r' else 'the write lock is'))
                return False
            if a < b:
                self.fail(None, None, 'a guard believes to own %s that is not held' % ('a read lock' if k == 'r' else 'the write lock'))
                return False
        return True

    def returned(self, fn, loc, s, live, cls):
        """A guard returned by value: account for what it owns, then destroy it."""
        T = fn.types[fn.raw['rt']].get('rec') if 'rt' in fn.raw else None
        T = T or 'm::write_lock'
        self.c.ob()
        if not self.conserved(cls, s, live, self.claims(T, s, loc)):
            return []
        return self.destroy(T, s, loc)
