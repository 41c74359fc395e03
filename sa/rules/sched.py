"""C02: the serial scheduler executes transactions one after another and answers every command exactly once.

The command queue is treated as a monitor.  Its reachable states (up to three waiting commands of three transactions) are
computed as the fixpoint of the abstract effects of its own operations, each interpreted from every such state; every
outcome is compared with the reference queue.  The worker loop, schedule_command and autocommit are interpreted over all
outcomes of what they call.
"""
from ..engine import Engine, NULL, VOID, State
from ..ir import AnalysisBroken, Program
from ..registry import check

S = 'm::SerialScheduler'
Q = S + '::CommandQueue'
TXN = ('root', 'T')
MAXLEN = 3


class Sched:
    def __init__(self, c):
        self.c = c
        self.P = Program(['src/catalog/SerialScheduler.cpp', 'src/catalog/Scheduler.cpp'])
        self.E = E = Engine(self.P)
        self.op = ''
        self.waits = set()
        E.value_classes_exact = {'std::tuple'}
        E.obj_std = {'std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::mutex', 'std::list', 'std::condition_variable'}
        M = E.models
        for k in ('unique_lock', 'lock_guard', 'scoped_lock'):
            M['ctor:std::' + k] = self.lk_ctor
            E.dtor_models['std::' + k] = self.lk_dtor
        M['std::unique_lock::unlock'] = lambda E, e, st, fr: [(VOID, self.release(s, l, e, fr)) for l, s in E.obj_loc(e, st, fr)]
        M['std::unique_lock::lock'] = lambda E, e, st, fr: [(VOID, self.acquire(s, l, e, fr)) for l, s in E.obj_loc(e, st, fr)]
        M['std::unique_lock::owns_lock'] = lambda E, e, st, fr: [(s.mem.get(l + ('__held',), 0), s) for l, s in E.obj_loc(e, st, fr)]
        M['std::condition_variable::wait'] = self.wait
        M['std::condition_variable::notify_one'] = lambda E, e, st, fr: [(VOID, self.event(st, ('notify',)))]
        M['std::condition_variable::notify_all'] = M['std::condition_variable::notify_one']
        L = 'std::list::'
        M[L + 'empty'] = lambda E, e, st, fr: [(int(not s.mem[l + ('__list',)]), s) for l, s in self.lst(e, st, fr)]
        M[L + 'size'] = lambda E, e, st, fr: [(len(s.mem[l + ('__list',)]), s) for l, s in self.lst(e, st, fr)]
        M[L + 'clear'] = lambda E, e, st, fr: [(VOID, s.set(l + ('__list',), ())) for l, s in self.lst(e, st, fr)]
        for n, i in (('front', 0), ('back', -1)):
            M[L + n] = lambda E, e, st, fr, i=i: [x for l, s in self.lst(e, st, fr) for x in self.at(s, l, i, e, fr)]
        for n, i in (('pop_front', 0), ('pop_back', -1)):
            M[L + n] = lambda E, e, st, fr, i=i: [x for l, s in self.lst(e, st, fr) for x in self.drop(s, l, i, e, fr)]
        for n in ('begin', 'cbegin'):
            M[L + n] = lambda E, e, st, fr: [(self.it(s, l, 0), s) for l, s in self.lst(e, st, fr)]
        for n in ('end', 'cend'):
            M[L + n] = lambda E, e, st, fr: [(('li', l, 'end'), s) for l, s in self.lst(e, st, fr)]
        for n in ('rbegin', 'crbegin'):
            M[L + n] = lambda E, e, st, fr: [(('lr', l, 'end'), s) for l, s in self.lst(e, st, fr)]
        for n in ('rend', 'crend'):
            M[L + n] = lambda E, e, st, fr: [(('lr',) + self.it(s, l, 0)[1:], s) for l, s in self.lst(e, st, fr)]
        for n in ('emplace_front', 'emplace_back', 'emplace', 'push_back', 'push_front', 'insert'):
            M[L + n] = lambda E, e, st, fr, n=n: self.emplace(e, st, fr, n)
        M[L + 'erase'] = self.erase
        IT = ('std::_List_iterator', 'std::_List_const_iterator', 'std::reverse_iterator', '__gnu_cxx::__normal_iterator')

        def passit(E, e, st, fr):
            return E.ev(e['args'][0], st, fr)
        for k in IT:
            M['ctorval:' + k] = passit
            M[k + '::operator*'] = self.star
            M[k + '::operator->'] = lambda E, e, st, fr: [(('p', v[1]), s) for v, s in self.star(E, e, st, fr)]
            for n, d in (('operator++', 1), ('operator--', -1)):
                M[k + '::' + n] = lambda E, e, st, fr, d=d: self.bump(e, st, fr, d)
        M['std::reverse_iterator::base'] = lambda E, e, st, fr: [(('li',) + v[1:], s) for v, s in E.ev(e['obj'], st, fr)]
        for n in ('next', 'prev'):
            M['std::' + n] = lambda E, e, st, fr, n=n: [(self.move(s, v, 1 if n == 'next' else -1, e, fr), s) for v, s in E.ev(e['args'][0], st, fr)]

        def eq(E, e, st, fr):
            ops = ([e['obj']] if 'obj' in e else []) + e['args']
            T = fr.fn.ty(ops[0]) or {}
            if 'iterator' not in T.get('s', ''):
                return None
            return [(int((a == b) == (e['op'] == '==')), s2) for a, s in E.ev(ops[0], st, fr) for b, s2 in E.ev(ops[1], s, fr)]
        E.model_pred.insert(0, (lambda q, e: e.get('op') in ('==', '!=') and q.startswith('std::'), eq))
        for n in ('std::find_if', 'std::find_if_not'):
            M[n] = lambda E, e, st, fr, n=n: self.find_if(e, st, fr, n.endswith('not'))
        M['std::get'] = self.get
        E.range_elems = lambda n, rl, s, fr: [self.node(rl, i) for i in s.mem[rl + ('__list',)]] if rl + ('__list',) in s.mem else None
        E.bind_hook = lambda v, i: self.part(v, i)
        M['std::promise::set_value'] = self.set_value
        E.lv_hook = self.guard
        E.insist_hook = lambda e, s, f: self.viol('assert', 'an assertion can fail', e, f)
        E.abort_hook = lambda e, s, f: self.viol('abort', 'can abort', e, f)

    def viol(self, key, msg, e=None, fr=None):
        where = fr.fn.loc(e) if fr else self.where
        self.c.viol('C02:%s:%s' % (self.op, key), where, '%s%s' % (msg, ' (state: %s)' % self.show if self.show else ''))

    show = ''

    @staticmethod
    def event(st, ev):
        held, evs = st.mon
        return st.withmon((held, evs + (ev,)))

    def args(self, e, st, fr):
        ls = []
        for a in e['args']:
            l, st = self.E.lv(a, st, fr)[0]
            ls.append(l)
        return ls, st

    # -- locks
    def acquire(self, st, loc, e, fr):
        held, evs = st.mon
        if held:
            self.viol('relock', 'acquires the queue mutex while holding it', e, fr)
        return st.set(loc + ('__held',), 1).withmon((1, evs))

    def release(self, st, loc, e, fr):
        held, evs = st.mon
        return st.set(loc + ('__held',), 0).withmon((0, evs))

    def lk_ctor(self, E, e, loc, st, fr):
        st = E.kill_prefix(loc, st).set(loc + ('__alive',), 1)
        ls = [l for l, _ in E.lv(e['args'][0], st, fr)]
        if self.mutex is not None and ls != [self.mutex]:
            self.viol('mutex', 'locks something other than the queue mutex', e, fr)
        return [(VOID, self.acquire(st, loc, e, fr))]

    def lk_dtor(self, E, st, loc, fr, v):
        if st.mem.get(loc + ('__held',)) == 1:
            st = self.release(st, loc, None, fr)
        return [E.kill_prefix(loc, st)]

    mutex = None

    def guard(self, e, l, st, fr):
        if self.qloc is not None and l[:len(self.qloc)] == self.qloc and len(l) == len(self.qloc) + 1 and not st.mon[0] and l[-1] not in self.free:
            self.viol('race', 'accesses %s without holding the queue mutex' % l[-1], e, fr)

    qloc = None
    free = ()

    def wait(self, E, e, st, fr):
        out = []
        if not st.mon[0]:
            self.viol('wait', 'waits without holding the queue mutex', e, fr)
        if len(e['args']) < 2:
            self.blocked.append(st)
            return [(VOID, st)]            # a spurious wakeup
        for f, s in E.ev(e['args'][1], st, fr):
            for v, s2 in E.call_value(f, e, s, fr, []):
                for b, s3 in E.split(v, s2):
                    if b:
                        out.append((VOID, s3))
                    else:
                        self.blocked.append(s3)
        return out

    # -- the list
    def lst(self, e, st, fr):
        return [(l, s) for l, s in self.E.obj_loc(e, st, fr)]

    def ids(self, st, l):
        return st.mem[l + ('__list',)]

    def node(self, l, i):
        return l + (('n', i),)

    def it(self, st, l, i):
        ids = self.ids(st, l)
        return ('li', l, ids[i] if i < len(ids) else 'end')

    def at(self, st, l, i, e, fr):
        ids = self.ids(st, l)
        if not ids:
            self.viol('empty', 'accesses an element of an empty queue', e, fr)
            return []
        return [(('lref', self.node(l, ids[i])), st)]

    def drop(self, st, l, i, e, fr):
        ids = list(self.ids(st, l))
        if not ids:
            self.viol('empty', 'removes an element of an empty queue', e, fr)
            return []
        x = ids.pop(i)
        st = self.E.kill_prefix(self.node(l, x), st)
        return [(VOID, st.set(l + ('__list',), tuple(ids)))]

    def erase(self, E, e, st, fr):
        out = []
        for l, s in self.lst(e, st, fr):
            for v, s2 in E.ev(e['args'][0], s, fr):
                ids = list(self.ids(s2, l))
                if v[2] == 'end' or len(e['args']) > 1:
                    raise AnalysisBroken('unsupported erase at ' + fr.fn.loc(e))
                k = ids.index(v[2])
                ids.pop(k)
                s2 = E.kill_prefix(self.node(l, v[2]), s2).set(l + ('__list',), tuple(ids))
                out.append((self.it(s2, l, k), s2))
        return out

    def move(self, st, v, d, e, fr):
        ids = self.ids(st, v[1]) + ('end',)
        if v[0] == 'lr':
            d = -d
        k = ids.index(v[2]) + d
        if not 0 <= k < len(ids):
            self.viol('bounds', 'moves an iterator out of the queue', e, fr)
            k = max(0, min(k, len(ids) - 1))
        return (v[0], v[1], ids[k])

    def bump(self, e, st, fr, d):
        out = []
        for l, s in self.E.lv(e['obj'], st, fr):
            v, s = self.E.read(l, None, s)
            n = self.move(s, v, d, e, fr)
            out.append((v if e['args'] else ('lref', l), s.set(l, n)))
        return out

    def target(self, st, v, e, fr):
        ids = self.ids(st, v[1]) + ('end',)
        k = ids.index(v[2])
        if v[0] == 'lr':
            k -= 1
        if not 0 <= k < len(ids) - 1:
            self.viol('bounds', 'dereferences an iterator that does not refer to an element of the queue', e, fr)
            return None
        return self.node(v[1], ids[k])

    def star(self, E, e, st, fr):
        out = []
        for v, s in E.ev(e['obj'], st, fr):
            if isinstance(v, tuple) and v[0] == 'lref':
                v = s.mem.get(v[1])
            t = self.target(s, v, e, fr)
            if t is not None:
                out.append((('lref', t), s))
        return out

    def find_if(self, e, st, fr, neg):
        E = self.E
        out = []
        for a, s in E.ev(e['args'][0], st, fr):
            for b, s1 in E.ev(e['args'][1], s, fr):
                for f, s2 in E.ev(e['args'][2], s1, fr):
                    todo = [(a, s2, 0)]
                    while todo:
                        i, x, n = todo.pop()
                        if i == b:
                            out.append((i, x))
                            continue
                        t = self.target(x, i, e, fr)
                        if t is None or n > 5:
                            continue
                        for v, x2 in E.call_value(f, e, x, fr, [('ref', t)]):
                            for y, x3 in E.split(v, x2):
                                if bool(y) != neg:
                                    out.append((i, x3))
                                else:
                                    todo.append((self.move(x3, i, 1, e, fr), x3, n + 1))
        return out

    def emplace(self, e, st, fr, how):
        E = self.E
        out = []
        for l, s in self.lst(e, st, fr):
            args = list(e['args'])
            pos = None
            if how in ('emplace', 'insert'):
                r = E.ev(args.pop(0), s, fr)
                pos, s = r[0]
            vals = []
            if len(args) == 1:
                v, s = E.ev(args[0], s, fr)[0]
                if isinstance(v, tuple) and v[0] == 'lref':
                    v = s.mem.get(v[1])
                new = v
            else:
                for a in args:
                    x, s = E.lv(a, s, fr)[0]
                    v = s.mem.get(x)
                    vals.append(v if v is not None else x)
                want = [TXN + (self.arg,), ('s', 'ast'), ('root', 'diag'), ('s', 'promise')]
                if vals != want:
                    self.viol('entry', 'the queued entry is not made of the transaction, the command, the diagnostic and the promise that were given', e, fr)
                new = ('cmd', self.seq, self.arg)
            ids = list(self.ids(s, l))
            k = {'emplace_front': 0, 'push_front': 0, 'emplace_back': len(ids), 'push_back': len(ids)}.get(how)
            if k is None:
                k = (ids + ['end']).index(pos[2])
            ids.insert(k, self.seq)
            s = s.set(l + ('__list',), tuple(ids)).set(self.node(l, self.seq), new)
            out.append((('lref', self.node(l, self.seq)), s))
        return out

    def part(self, v, i):
        if isinstance(v, tuple) and v and v[0] == 'cmd':
            return TXN + (v[2],) if i == 0 else ('root', 'part', v[1], i)
        return None

    def get(self, E, e, st, fr):
        ta = e.get('ta') or ['']
        i = int(''.join(ch for ch in ta[0] if ch.isdigit()) or -1)
        out = []
        for l, s in E.lv(e['args'][0], st, fr):
            v = s.mem.get(l)
            p = self.part(v, i)
            if p is None:
                raise AnalysisBroken('%s: std::get on an unknown entry' % fr.fn.loc(e))
            out.append((('lref', p), s))
        return out

    def set_value(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            if l[:2] == ('root', 'part') and l[3] == 3:
                who = l[2]
            elif s.mem.get(l) == ('s', 'promise'):
                who = self.seq
            else:
                raise AnalysisBroken('%s: an unknown promise is fulfilled' % fr.fn.loc(e))
            for v, s2 in E.ev(e['args'][0], s, fr):
                for b, s3 in E.split(v, s2):
                    out.append((VOID, self.event(s3, ('promise', who, bool(b)))))
        return out


# ---------------------------------------------------------------------------------------------------------- queue
def canon(state):
    """(commands as (seq, txn) in list order, running, closed): renumber arrival by rank"""
    cmds, run, closed = state
    rank = {s: i for i, s in enumerate(sorted(x[0] for x in cmds))}
    return tuple((rank[s], t) for s, t in cmds), run, closed


class Queue:
    def __init__(self, c):
        self.c = c
        self.X = X = Sched(c)
        P = X.P
        rec = P.recs.get(Q)
        if rec is None:
            raise AnalysisBroken('anchor vanished: class ' + Q)
        self.loc = None
        for q, v in P.vars.items():
            if v['types'][v['v']['t']].get('rec') == Q:
                self.loc = ('g', q)
        if self.loc is None:
            raise AnalysisBroken('anchor vanished: the command queue object')

        def field(pred, what):
            fs = [f['n'] for f in rec['fields'] if pred(rec['types'][f['t']])]
            if len(fs) != 1:
                raise AnalysisBroken('anchor vanished: %s of the command queue' % what)
            return self.loc + (fs[0],)
        self.list = field(lambda T: T.get('rec') == 'std::list', 'the list')
        self.running = field(lambda T: T.get('ptr'), 'the running transaction')
        self.closed = field(lambda T: T.get('bt') == 'bool' or T.get('s') == 'bool' or T.get('s') == 'std::atomic<bool>', 'the closed flag')
        X.mutex = field(lambda T: T.get('rec') == 'std::mutex', 'the mutex')
        X.qloc = self.loc
        cv = [f['n'] for f in rec['fields'] if rec['types'][f['t']].get('rec') == 'std::condition_variable']
        X.free = set(cv) | {X.mutex[-1]}

    def load(self, state):
        cmds, run, closed = state
        st = State().withmon((0, ()))
        st.mem[self.list + ('__list',)] = tuple(s for s, _ in cmds)
        for s, t in cmds:
            st.mem[self.X.node(self.list, s)] = ('cmd', s, t)
        st.mem[self.running] = NULL if run is None else ('p', TXN + (run,))
        st.mem[self.closed] = closed
        for t in (1, 2, 3):
            st.mem[TXN + (t, 'id_')] = t
        return st

    def read(self, st):
        ids = st.mem[self.list + ('__list',)]
        cmds = []
        for i in ids:
            v = st.mem.get(self.X.node(self.list, i))
            if not (isinstance(v, tuple) and v[0] == 'cmd'):
                raise AnalysisBroken('a queue entry is unknown')
            cmds.append((v[1], v[2]))
        r = st.mem.get(self.running)
        if r in (NULL, 0, ('null',), None):
            run = None
        elif isinstance(r, tuple) and r[0] == 'p' and r[1][:2] == TXN and len(r[1]) == 3:
            run = r[1][2]
        else:
            self.X.viol('running', 'the running transaction is recorded as something that is not a transaction')
            run = None
        return tuple(cmds), run, int(bool(st.mem.get(self.closed)))

    def call(self, name, state, args):
        X = self.X
        fn = X.P.one(Q + '::' + name)
        X.op = Q + '::' + name
        X.where = fn.loc()
        cmds, run, closed = state
        X.show = 'waiting commands of transactions %s, running %s%s' % ([t for _, t in cmds], run, ', closed' if closed else '')
        X.blocked = []
        X.seq = max([s for s, _ in cmds] + [-1]) + 1
        rets, thrown = X.E.run(fn, self.load(state), self.loc, args)
        for t, s in thrown:
            X.viol('throws', 'throws an exception')
        for v, s in rets:
            if s.mon[0]:
                X.viol('leak', 'returns with the queue mutex held')
        if not rets and not X.blocked:
            X.viol('stuck', 'has no outcome')
        return fn, rets

    def ready(self, state):
        cmds, run, closed = state
        return bool(closed) or bool(cmds) and (run is None or any(t == run for _, t in cmds))

    def explore(self):
        X, c = self.X, self.c
        todo = [((), None, 0)]
        seen = set(todo)
        n = 0

        def evs(s, k):
            return [e for e in s.mon[1] if e[0] == k]

        def wake(state, s, after):
            if self.ready(after) and not self.ready(state) and not evs(s, 'notify'):
                X.viol('wakeup', 'does not wake the waiting worker although a command has become available')
            c.ob()

        while todo:
            state = todo.pop(0)
            cmds, run, closed = state
            succ = []
            # push
            if len(cmds) < MAXLEN:
                for t in (1, 2, 3):
                    X.arg = t
                    fn, rets = self.call('push', state, [('ref', TXN + (t,)), ('val', ('s', 'ast')), ('ref', ('root', 'diag')), ('val', ('s', 'promise'))])
                    for v, s in rets:
                        n += 1
                        c.ob(4, True)
                        after = self.read(s)
                        ps = evs(s, 'promise')
                        if closed:
                            if after != state or ps != [('promise', X.seq, False)]:
                                X.viol('closed', 'a command pushed to a closed queue must be answered with failure, exactly once, and not be queued')
                            continue
                        if ps:
                            X.viol('promise', 'answers a command that is still waiting')
                        if sorted(after[0]) != sorted(cmds + ((X.seq, t),)) or after[1:] != state[1:]:
                            X.viol('content', 'after push the queue does not consist of its former commands and the new one')
                            continue
                        wake(state, s, after)
                        succ.append(after)
            # pop
            fn, rets = self.call('pop', state, [])
            for v, s in rets:
                n += 1
                c.ob(4, True)
                after = self.read(s)
                if evs(s, 'promise'):
                    X.viol('promise', 'pop must not answer commands')
                if v == ('none',):
                    if not closed:
                        X.viol('none', 'delivers nothing although the queue is not closed')
                    continue
                x = v[1] if isinstance(v, tuple) and v[0] == 'some' else None
                if not (isinstance(x, tuple) and x[0] == 'cmd'):
                    raise AnalysisBroken('pop delivers something unknown')
                seq, t = x[1:]
                if (seq, t) not in cmds:
                    X.viol('content', 'delivers a command that is not in the queue')
                    continue
                if run is not None and t != run:
                    X.viol('isolation', 'delivers a command of transaction %d while transaction %d is running' % (t, run))
                if any(s2 < seq for s2, t2 in cmds if t2 == t):
                    X.viol('fifo', 'delivers a command before an earlier command of the same transaction')
                if run is None and any(s2 < seq for s2, t2 in cmds):
                    X.viol('fair', 'starts a transaction before one that arrived earlier')
                if after[1] != (run if run is not None else t):
                    X.viol('running', 'does not record the transaction of the delivered command as the running one')
                if sorted(after[0]) != sorted(y for y in cmds if y[0] != seq):
                    X.viol('content', 'after pop the queue does not consist of its other commands')
                    continue
                succ.append(after)
            if X.blocked and self.ready(state):
                X.viol('blocks', 'waits although the next command could be delivered')
            if rets and not self.ready(state):
                X.viol('ready', 'does not wait although no command of the running transaction is available')
            # commit or abort: only transactions that have no waiting command
            for t in (1, 2, 3):
                if any(t2 == t for _, t2 in cmds):
                    continue
                fn, rets = self.call('stop_transaction', state, [('ref', TXN + (t,))])
                for v, s in rets:
                    n += 1
                    c.ob(3, True)
                    after = self.read(s)
                    want = (cmds, None if run == t else run, closed)
                    if after != want:
                        X.viol('effect', 'ending transaction %d must end exactly this transaction, but afterwards transaction %s is running' % (t, after[1]))
                        continue
                    wake(state, s, after)
                    succ.append(after)
            # close, is_closed
            fn, rets = self.call('close', state, [])
            for v, s in rets:
                n += 1
                c.ob(3, True)
                after = self.read(s)
                ps = sorted(e[1:] for e in evs(s, 'promise'))
                if ps != sorted((q, False) for q, _ in cmds):
                    X.viol('promise', 'closing the queue must answer every waiting command with failure, exactly once')
                if after[0] or not after[2]:
                    X.viol('effect', 'closing must empty the queue and mark it as closed')
                    continue
                wake(state, s, after)
                succ.append(after)
            fn, rets = self.call('is_closed', state, [])
            for v, s in rets:
                c.ob()
                if bool(v) != bool(closed) or self.read(s) != state:
                    X.viol('effect', 'is_closed() does not tell whether the queue is closed')
            for a in succ:
                a = canon(a)
                if a not in seen:
                    seen.add(a)
                    if len(seen) > 3000:
                        raise AnalysisBroken('the queue states do not converge')
                    todo.append(a)
        c.floor('queue states', len(seen), 40)
        c.floor('queue transitions', n, 200)
        c.use(X.E)


# --------------------------------------------------------------------------------------------------------- worker
class Worker:
    def __init__(self, c):
        self.c = c
        self.X = X = Sched(c)
        E = X.E
        M = E.models
        X.seq = 0
        X.arg = 1
        D = ('root', 'part', 0, 2)
        A = 'std::__atomic_base::'
        M['m::Catalog::Get'] = lambda E, e, st, fr: [(('lref', ('root', 'catalog')), st)]

        def is_closed(E, e, st, fr):
            if st.mem.get(('root', 'popped')):
                return [(1, st)]
            return [(0, st), (1, st)]
        M[Q + '::is_closed'] = is_closed

        def pop(E, e, st, fr):
            if st.mem.get(('root', 'popped')):
                X.viol('loop', 'takes another command although the queue is closed', e, fr)
                return []
            return [(('none',), st.set(('root', 'popped'), 1)), (('some', ('cmd', 0, 1)), st.set(('root', 'popped'), 1))]
        M[Q + '::pop'] = pop

        def clear(E, e, st, fr):
            return [(VOID, s.set(('root', 'errors'), 0)) for l, s in E.obj_loc(e, st, fr)]
        M['m::Diagnostic::clear'] = clear
        M['m::Diagnostic::num_errors'] = lambda E, e, st, fr: [(s.mem[('root', 'errors')] if l == D else 0, s) for l, s in E.obj_loc(e, st, fr)]

        def sema_ctor(E, e, loc, st, fr):
            l, s = E.lv(e['args'][0], st, fr)[0]
            if l != D:
                X.viol('diag', 'the semantic analysis reports to another diagnostic', e, fr)
            return [(VOID, s.set(loc + ('__alive',), 1))]
        M['ctor:m::ast::Sema'] = sema_ctor

        def analyze(E, e, st, fr):
            out = []
            for l, s in [x for x in E.lv(e['args'][0], st, fr)]:
                if l != ('root', 'part', 0, 1) and s.mem.get(l) != ('s', ('init', ('root', 'part', 0, 1))):
                    X.viol('command', 'analyzes something other than the command', e, fr)
                s = X.event(s, ('analyze',))
                bad = s.mem.get(('root', 'parser_error'))
                out.append((('p', ('root', 'cmd')), s))
                if bad:                    # what the parser rejected may or may not be analyzable
                    out.append((NULL, s))
                out.append((NULL, s.set(('root', 'errors'), 1)))
            return out
        M['m::ast::Sema::analyze'] = analyze

        def transaction(E, e, st, fr):
            if not e['args']:
                return None
            return [(VOID, X.event(s, ('txn', v))) for v, s in E.ev_ptr(e['args'][0], st, fr)]
        M['m::DatabaseCommand::transaction'] = transaction

        def execute(E, e, st, fr):
            out = []
            for l, s in E.lv(e['args'][0], st, fr):
                if l != D:
                    X.viol('diag', 'the command reports to another diagnostic', e, fr)
                s = X.event(s, ('exec',))
                out.append((VOID, s.set(('root', 'failed'), 0)))
                out.append((VOID, s.set(('root', 'errors'), 1).set(('root', 'failed'), 1)))
            return out
        M['m::DatabaseCommand::execute'] = execute
        NEXT = ('root', 'next')

        def nxt(E, e, st, fr):
            v = st.mem[NEXT]
            return [(v if e.get('args') else v + 1, st.set(NEXT, v + 1))]
        M[A + 'operator++'] = nxt
        M[A + 'fetch_add'] = lambda E, e, st, fr: [(st.mem[NEXT], st.set(NEXT, st.mem[NEXT] + 1))]
        E.model_pred.insert(0, (lambda q, e: q.startswith((A + 'operator long', A + 'load', 'std::atomic::operator', 'std::atomic::load')), lambda E, e, st, fr: [(st.mem[NEXT], st)]))

    def run(self):
        X, c = self.X, self.c
        fn = X.P.one(S + '::schedule_thread')
        X.op = fn.q
        X.where = fn.loc()
        n = 0
        for perr in (0, 1):
            for start in (-1, 0, 3):
                st = State().withmon((0, ()))
                st.mem[('root', 'errors')] = perr
                st.mem[('root', 'parser_error')] = perr
                st.mem[('root', 'next')] = 7
                st.mem[TXN + (1, 'start_time_')] = start
                st.mem[TXN + (1, 'id_')] = 1
                X.show = 'command %s errors of the parser, start time %d' % ('with' if perr else 'without', start)
                rets, thrown = X.E.run(fn, st, None, [])
                for t, s in thrown:
                    X.viol('throws', 'the worker thread dies from an exception')
                for v, s in rets:
                    n += 1
                    c.ob(5, True)
                    evs = s.mon[1]
                    k = [e[0] for e in evs]
                    if not evs and s.mem.get(TXN + (1, 'start_time_')) == start and s.mem[('root', 'next')] == 7:
                        continue               # closed, or nothing delivered
                    ps = [e for e in evs if e[0] == 'promise']
                    if len(ps) != 1:
                        X.viol('promise', 'a command is answered %d times' % len(ps))
                        continue
                    if k.index('promise') != len(k) - 1:
                        X.viol('order', 'a command is answered before it has been executed')
                    if k.count('analyze') != 1:
                        X.viol('analyze', 'a command is analyzed %d times' % k.count('analyze'))
                    executed = k.count('exec')
                    good = 'failed' in [x[1] for x in s.mem if x[:1] == ('root',) and len(x) == 2]
                    if executed > 1:
                        X.viol('exec', 'a command is executed %d times' % executed)
                    if executed and perr:
                        X.viol('exec', 'a command with errors is executed')
                    ok = bool(executed) and not s.mem.get(('root', 'failed'))
                    if ps[0][2] != ok:
                        X.viol('answer', 'a command is answered with %s although it %s' % ('success' if ps[0][2] else 'failure',
                               'was executed without error' if ok else ('reported an error during its execution' if executed else 'was not executed')))
                    if not executed and not perr and s.mem[('root', 'errors')] == 0:
                        X.viol('exec', 'a command without errors is not executed')
                    if executed:
                        tx = [e for e in evs if e[0] == 'txn']
                        if [e[1] for e in tx] != [('p', TXN + (1,))] or k.index('txn') > k.index('exec'):
                            X.viol('txn', 'a command is executed without knowing its transaction')
                        want = start if start != -1 else 7
                        if s.mem.get(TXN + (1, 'start_time_')) != want:
                            X.viol('start', 'the start time of the transaction must be %s' % ('kept' if start != -1 else 'the next one'))
                        if s.mem[('root', 'next')] != (7 if start != -1 else 8):
                            X.viol('start', 'the next start time is not advanced exactly when it is used')
        c.floor('worker outcomes', n, 8)
        c.use(X.E)


# --------------------------------------------------------------------------------------- schedule_command, autocommit
class Client:
    def __init__(self, c):
        self.c = c

    def schedule(self):
        c = self.c
        X = Sched(c)
        X.seq = 0
        E, M = X.E, X.E.models
        fn = X.P.one(S + '::schedule_command')
        X.op, X.where, X.show = fn.q, fn.loc(), ''
        rec = X.P.recs[S]
        th = [f['n'] for f in rec['fields'] if rec['types'][f['t']].get('rec') == 'std::thread']
        if len(th) != 1:
            raise AnalysisBroken('anchor vanished: the worker thread')
        THR = ('root', 'this', th[0])
        E.obj_std = E.obj_std | {'std::thread', 'std::promise', 'std::future'}

        def prom(E, e, loc, st, fr):
            if e['args']:
                l, s = E.lv(e['args'][0], st, fr)[0]
                return [(VOID, E.copy_obj(l, loc, s))]
            return [(VOID, E.kill_prefix(loc, st).set(loc + ('p',), 1))]
        M['ctor:std::promise'] = prom

        def futur(E, e, loc, st, fr):
            if e['args']:
                l, s = E.lv(e['args'][0], st, fr)[0]
                return [(VOID, E.copy_obj(l, loc, s))]
            return [(VOID, E.kill_prefix(loc, st))]
        M['ctor:std::future'] = futur

        def get_future(E, e, st, fr):
            out = []
            for l, s in E.obj_loc(e, st, fr):
                loc = ('t', fr.depth, E.site(e, fr))
                out.append((('obj', loc), s.set(loc + ('f',), s.mem.get(l + ('p',), 0)).set(loc + ('__alive',), 1)))
            return out
        M['std::promise::get_future'] = get_future

        def push(E, e, st, fr):
            ls, st = X.args(e, st, fr)
            ok = ls[0] == TXN + (1,) and st.mem.get(ls[1]) == ('s', 'ast') and ls[2] == ('root', 'diag') and st.mem.get(ls[3] + ('p',)) == 1
            return [(VOID, X.event(st, ('push', ok)))]
        M[Q + '::push'] = push
        M['std::thread::joinable'] = lambda E, e, st, fr: [(s.mem.get(THR + ('on',), 0), s) for l, s in E.obj_loc(e, st, fr)]

        def thread_ctor(E, e, loc, st, fr):
            if not e['args']:
                return [(VOID, E.kill_prefix(loc, st))]
            v = E.ev(e['args'][0], st, fr)[0][0]
            good = isinstance(v, tuple) and v[0] == 'fn' and v[2] == S + '::schedule_thread'
            return [(VOID, E.kill_prefix(loc, st).set(loc + ('on',), 1 if good else 2).set(loc + ('__alive',), 1))]
        M['ctor:std::thread'] = thread_ctor

        def thread_asg(E, e, st, fr):
            dst, src = (e['obj'], e['args'][0]) if 'obj' in e else (e['args'][0], e['args'][1])
            out = []
            for l, s in E.lv(dst, st, fr):
                for m, s2 in E.lv(src, s, fr):
                    if l == THR:
                        if s2.mem.get(THR + ('on',)):
                            X.viol('thread', 'replaces the running worker thread', e, fr)
                        if not s2.mon[0]:
                            X.viol('race', 'starts the worker thread without synchronisation: two clients may start it at the same time', e, fr)
                        s2 = X.event(s2, ('start', s2.mem.get(m + ('on',))))
                        s2 = s2.set(THR + ('on',), 1)
                    out.append((('lref', l), s2))
            return out
        M['std::thread::operator='] = thread_asg

        def once(E, e, st, fr):
            out = []
            if st.mem.get(('root', 'once')):
                return [(VOID, st)]
            for f, s in E.ev(e['args'][1], st, fr):
                held, ev = s.mon
                for v, s2 in E.call_value(f, e, s.set(('root', 'once'), 1).withmon((held + 1, ev)), fr, []):
                    out.append((VOID, s2.withmon((s2.mon[0] - 1, s2.mon[1]))))
            return out
        M['std::call_once'] = once
        X.mutex = None
        n = 0
        for on in (0, 1):
            st = State().withmon((0, ()))
            st.mem[THR + ('on',)] = on
            st.mem[('root', 'once')] = on
            rets, thrown = E.run(fn, st, ('root', 'this'), [('ref', TXN + (1,)), ('val', ('s', 'ast')), ('ref', ('root', 'diag'))])
            for v, s in rets:
                n += 1
                c.ob(3, True)
                ev = s.mon[1]
                if [e for e in ev if e[0] == 'push'] != [('push', True)]:
                    X.viol('push', 'a command must be queued exactly once, with its transaction, diagnostic and promise')
                if not s.mem.get(THR + ('on',)):
                    X.viol('thread', 'does not start the worker thread')
                if [e for e in ev if e[0] == 'start' and e[1] != 1]:
                    X.viol('thread', 'starts a thread that is not the worker')
                l = v[1] if isinstance(v, tuple) and v[0] in ('obj', 'lref') else None
                if l is None or s.mem.get(l + ('f',)) != 1:
                    X.viol('future', 'does not return the future of the promise that is queued')
        c.floor('schedule_command outcomes', n, 2)
        c.use(E)
        # destructor
        fn = X.P.one(S + '::~SerialScheduler')
        X.op, X.where = fn.q, fn.loc()
        M[Q + '::close'] = lambda E, e, st, fr: [(VOID, X.event(st, ('close',)))]

        def join(E, e, st, fr):
            return [(VOID, X.event(s, ('join',))) for l, s in E.obj_loc(e, st, fr)]
        M['std::thread::join'] = join
        for on in (0, 1):
            st = State().withmon((0, ()))
            st.mem[THR + ('on',)] = on
            for v, s in E.run(fn, st, ('root', 'this'), [])[0]:
                c.ob()
                k = [e[0] for e in s.mon[1]]
                if on and k != ['close', 'join'] or not on and 'join' in k:
                    X.viol('shutdown', 'shutting down must close the queue and then join the worker, if there is one')
        c.use(E)

    def ending(self):
        c = self.c
        X = Sched(c)
        X.seq, X.show = 0, ''
        E, M = X.E, X.E.models
        M[Q + '::stop_transaction'] = lambda E, e, st, fr: [(VOID, X.event(s, ('stop', l))) for l, s in E.lv(e['args'][0], st, fr)]
        E.obj_std = E.obj_std - {'std::list'}
        for name in ('commit', 'abort'):
            fn = X.P.one(S + '::' + name)
            X.op, X.where = fn.q, fn.loc()
            for v, s in E.run(fn, State().withmon((0, ())), ('root', 'this'), [('val', ('p', TXN + (1,)))])[0]:
                c.ob(2, True)
                if s.mon[1] != (('stop', TXN + (1,)),):
                    X.viol('stop', 'must end exactly the given transaction, once')
                if v not in (1, True):
                    X.viol('result', 'must report success')
        c.use(E)
        # autocommit
        X = Sched(c)
        X.seq, X.show = 0, ''
        E, M = X.E, X.E.models
        fn = X.P.one('m::Scheduler::autocommit')
        X.op, X.where = fn.q, fn.loc()
        E.obj_std = E.obj_std | {'std::future'}
        I = 'm::Scheduler::'
        M[I + 'begin_transaction'] = lambda E, e, st, fr: [(('p', TXN + (1,)), X.event(st, ('begin',)))]

        def sched(E, e, st, fr):
            ls, st = X.args(e, st, fr)
            ok = ls[0] == TXN + (1,) and st.mem.get(ls[1]) == ('s', 'ast') and ls[2] == ('root', 'diag')
            loc = ('t', fr.depth, E.site(e, fr))
            return [(('obj', loc), X.event(st, ('schedule', ok)).set(loc + ('__alive',), 1))]
        M[I + 'schedule_command'] = sched
        M['std::__basic_future::wait'] = lambda E, e, st, fr: [(VOID, st)]
        M['std::future::get'] = lambda E, e, st, fr: [(b, X.event(st, ('get', b))) for b in (0, 1)]

        def end(name):
            def h(E, e, st, fr):
                ls, st = X.args(e, st, fr)
                v = st.mem.get(ls[0])
                return [(1, X.event(st, (name, v == ('p', TXN + (1,)))))]
            return h
        M[I + 'commit'] = end('commit')
        M[I + 'abort'] = end('abort')
        n = 0
        for v, s in E.run(fn, State().withmon((0, ())), ('root', 'this'), [('val', ('s', 'ast')), ('ref', ('root', 'diag'))])[0]:
            n += 1
            c.ob(2, True)
            ev = list(s.mon[1])
            got = [e[1] for e in ev if e[0] == 'get']
            want = [('begin',), ('schedule', True), ('get', got[0] if got else None), ('commit' if got and got[0] else 'abort', True)]
            if ev != want:
                X.viol('protocol', 'autocommit must begin a transaction, schedule the command in it once, wait for the answer, and commit exactly on success, otherwise abort; it does: %s' % [e[0] for e in ev])
            elif bool(v) != bool(got[0]):
                X.viol('result', 'autocommit does not return whether the command succeeded')
        c.floor('autocommit outcomes', n, 2)
        c.use(E)


@check('C02', 'Serial scheduler: transactions run one after another, every command is answered exactly once')
def run(c):
    Queue(c).explore()
    Worker(c).run()
    cl = Client(c)
    cl.schedule()
    cl.ending()
    c.rule('The reachable states of the command queue (up to %d waiting commands of 3 transactions) are the fixpoint of its own '
           'operations; per transition: lock discipline, content, isolation, FIFO, wakeups, answers. Worker, schedule_command, commit, '
           'abort and autocommit: all outcomes of what they call.' % MAXLEN)
