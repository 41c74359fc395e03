"""D01/D02: the catalog's databases, and the tables and indexes of a database.

The objects are abstracted by what users can see of them: which names exist, which tables an index belongs to, which indexes are
valid.  From every abstract state up to the bound each operation is interpreted, all its outcomes are compared with the
reference operation, and the outcome's object graph has to be well formed again.
"""
import itertools
import os

from ..containers import Containers, by_class, elems, make, node, seq
from ..engine import Engine, NULL, VOID, State
from ..ir import AnalysisBroken, Program
from ..registry import check

CAT = ('root', 'C')
DB = ('root', 'DB')
NAMES = {n: ('str', n) for n in ('d', 'e', 'x', 't', 'u', 'a', 'b', 'i', 'j', 'k')}


class World:
    def __init__(self, c, pid, tus):
        self.c = c
        self.pid = pid
        self.P = P = Program(tus)
        self.E = E = Engine(P)
        self.op, self.show, self.where = '', '', ''
        E.value_classes_exact = {'m::Pooled'}
        self.K = Containers(E, problem=lambda k, m, e, fr: self.viol(k, m, e, fr))
        self.K.on_remove = self.removed
        M = E.models

        def pooled(E, e, st, fr):
            if not e['args']:
                return [(NULL, st)]
            return [(s.mem.get(v[1], v) if isinstance(v, tuple) and v and v[0] == 'lref' else v, s) for v, s in E.ev(e['args'][0], st, fr)]
        M['ctorval:m::Pooled'] = pooled
        M['m::Pooled::operator='] = lambda E, e, st, fr: [(('lref', l), s2.set(l, v)) for v, s in self.K.val(e['args'][0], st, fr) for l, s2 in E.lv(e['obj'], s, fr)]

        def peq(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            return [(E.fold('!=' if e['n'].endswith('!=') else '==', (a, b)), s2) for a, s in self.K.val(ops[0], st, fr) for b, s2 in self.K.val(ops[1], s, fr)]
        M['m::Pooled::operator=='] = peq
        M['m::Pooled::operator!='] = peq
        M['m::Pooled::has_value'] = lambda E, e, st, fr: [(int(v not in (NULL, ('null',))), s) for v, s in self.K.val(e['obj'], st, fr)]
        M['m::Pooled::assert_not_none'] = lambda E, e, st, fr: self.K.val(e['obj'], st, fr)

        def pstar(E, e, st, fr):
            return [(('s', ('text', v)), s) for v, s in self.K.val(e['obj'], st, fr)]
        for o in ('operator*', 'operator->'):
            M['m::Pooled::' + o] = pstar
        M['m::Catalog::Get'] = lambda E, e, st, fr: [(('lref', CAT), st)]

        def diag(kind):
            return lambda E, e, st, fr: [(('lref', ('root', 'diag', kind)), self.event(st, (kind,)))]
        for k in ('err', 'out'):
            M['m::Diagnostic::' + k] = diag(k)
        M['m::Diagnostic::operator()'] = diag('note')
        by_class(P, E)
        E.insist_hook = lambda e, s, f: self.viol('assert', 'an assertion can fail', e, f)
        E.abort_hook = lambda e, s, f: self.viol('abort', 'can abort', e, f)
        E.null_hook = self.null
        E.lv_hook = self.access
        E.MAX_DEPTH = 12

    def event(self, st, ev):
        return st.withmon((st.mon or ()) + (ev,))

    def viol(self, key, msg, e=None, fr=None):
        where = fr.fn.loc(e) if fr is not None and e is not None else self.where
        self.c.viol('%s:%s:%s' % (self.pid, self.op, key), where, '%s%s%s' % (self.op + ': ', msg, ' (%s)' % self.show if self.show else ''))

    def null(self, e, st, fr, v=None):
        if v is None:
            self.viol('null', 'dereferences a null pointer', e, fr)
        return None

    def access(self, e, l, st, fr):
        for i in range(2, len(l) + 1):
            if st.mem.get(l[:i] + ('__dead',)):
                self.viol('dead', 'accesses an object after it was destroyed', e, fr)
                return

    def removed(self, loc, st):
        """An element is removed from a container: objects it owns die."""
        for k, v in list(st.mem.items()):
            if k[:len(loc)] == loc and isinstance(v, tuple) and v[:1] == ('p',) and v[1][:2] in (('root', 'tab'), ('root', 'idx')) and k[len(loc):] in (('second',), ('index',)):
                st = st.set(v[1] + ('__dead',), 1)
        return st

    def run(self, fn, st, this, args):
        self.where = fn.loc()
        return self.E.run(fn, st, this, args)


def field(P, cls, pred, what):
    rec = P.recs.get(cls)
    if rec is None:
        raise AnalysisBroken('anchor vanished: class ' + cls)
    fs = [f['n'] for f in rec['fields'] if pred(rec['types'][f['t']])]
    if len(fs) != 1:
        raise AnalysisBroken('anchor vanished: %s of %s' % (what, cls))
    return fs[0]


# ------------------------------------------------------------------------------------------------- D01: databases
class Dbs(World):
    """State: (names of databases in map order, name in use or None)"""

    def __init__(self, c):
        super().__init__(c, 'D01', ['src/catalog/Catalog.cpp', 'src/catalog/DatabaseCommand.cpp', 'src/catalog/Schema.cpp'])
        P = self.P
        self.fdbs = field(P, 'm::Catalog', lambda T: T.get('rec') == 'std::unordered_map' and 'm::Database' in T['s'], 'the databases')
        self.fuse = field(P, 'm::Catalog', lambda T: T.get('ptr') and 'm::Database' in T['s'], 'the database in use')
        self.cmdname = field(P, 'm::CreateDatabase', lambda T: T.get('rec') == 'm::Pooled', 'the database name')

        def del_hook(n, st, fr):
            return None
        self.E.models['ctor:m::Database'] = self.newdb
        self.E.expr_hook = self.expr

    def newdb(self, E, e, loc, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            s = E.kill_prefix(loc, s)
            out.append((VOID, s.set(loc + ('name',), v).set(loc + ('__alive',), 1)))
        return out

    def expr(self, e, st, fr):
        if e['k'] == 'del':
            out = []
            for v, s in self.E.ev(e['e'], st, fr):
                if isinstance(v, tuple) and v[:1] == ('p',):
                    if s.mem.get(v[1] + ('__dead',)):
                        self.viol('double', 'destroys a database twice', e, fr)
                    s = s.set(v[1] + ('__dead',), 1)
                out.append((VOID, s))
            return out
        return None

    def load(self, state):
        names, use = state
        L = CAT + (self.fdbs,)
        st = make(State().withmon(()), L, range(len(names)))
        for i, n in enumerate(names):
            st = st.set(node(L, i) + ('first',), NAMES[n]).set(node(L, i) + ('second',), ('p', ('root', 'db', n)))
            st = st.set(('root', 'db', n, 'name'), NAMES[n])
        return st.set(CAT + (self.fuse,), NULL if use is None else ('p', ('root', 'db', use)))

    def read(self, st):
        L = CAT + (self.fdbs,)
        names = []
        if seq(st, L) is None:
            raise AnalysisBroken('the set of databases is unknown')
        for i in seq(st, L):
            k, v = st.mem.get(node(L, i) + ('first',)), st.mem.get(node(L, i) + ('second',))
            if not (isinstance(v, tuple) and v[:1] == ('p',)):
                self.viol('entry', 'the catalog maps a name to no database')
                continue
            if st.mem.get(v[1] + ('__dead',)):
                self.viol('dangling', 'the catalog maps a name to a destroyed database')
            if st.mem.get(v[1] + ('name',)) != k:
                self.viol('name', 'the catalog maps a name to a database with a different name')
            names.append((k[1], v[1]))
        u = st.mem.get(CAT + (self.fuse,))
        if u in (NULL, ('null',), 0):
            use = None
        elif isinstance(u, tuple) and u[:1] == ('p',):
            use = st.mem.get(u[1] + ('name',), (None, None))[1]
            if st.mem.get(u[1] + ('__dead',)) or (use, u[1]) not in names:
                self.viol('in-use', 'the database in use does not exist any more')
        else:
            raise AnalysisBroken('the database in use is unknown')
        return tuple(sorted(n for n, _ in names)), use, dict(names)


def outcome(st):
    return sum(1 for x in st.mon if x[0] == 'err'), sum(1 for x in st.mon if x[0] == 'out')


@check('D01', 'Creating, dropping and using databases does exactly what was asked or reports an error')
def d01(c):
    W = Dbs(c)
    P = W.P
    states = []
    for r in range(3):
        for names in itertools.permutations(('d', 'e'), r):
            states += [(names, u) for u in (None,) + names]
    ops = []
    for n in ('d', 'e', 'x'):
        ops += [('add', n), ('get', n), ('has', n), ('drop', n), ('dropref', n), ('CreateDatabase', n), ('DropDatabase', n), ('UseDatabase', n)]
    ops += [('in_use', None), ('has_in_use', None), ('unset', None), ('clear', None), ('num', None), ('use', 'd'), ('use', 'e')]
    nob = 0
    for state in states:
        names, use = state
        for op, n in ops:
            want, wuse, res = set(names), use, None       # res: 'throw' or a value
            st = W.load(state)
            cur = CAT
            args = []
            exists = n in names
            W.show = 'databases {%s}, in use: %s%s' % (', '.join(names), use, ', argument %s' % n if n else '')
            cmd = False
            q = None
            nm = ('ref', ('root', 'arg'))
            if n:
                st = st.set(('root', 'arg'), NAMES[n])
            if op == 'add':
                q, args = P.one('m::Catalog::add_database'), [('val', NAMES[n])]
                res = 'throw' if exists else ('db', n)
                want |= {n}
            elif op == 'get':
                q, args, res = P.one('m::Catalog::get_database'), [nm], ('db', n) if exists else 'throw'
            elif op == 'has':
                q, args, res = P.one('m::Catalog::has_database'), [nm], int(exists)
            elif op == 'drop':
                q, args = P.one('m::Catalog::drop_database', pred=lambda f: f.types[f.params[0]['t']].get('rec') == 'm::Pooled'), [nm]
                res = None if exists and n != use else 'throw'
                want -= {n} if res is None else set()
            elif op == 'dropref':
                if not exists:
                    continue
                q, args = P.one('m::Catalog::drop_database', pred=lambda f: f.types[f.params[0]['t']].get('rec') == 'm::Database'), [('ref', ('root', 'db', n))]
                res = None if n != use else 'throw'
                want -= {n} if res is None else set()
            elif op == 'use':
                if not exists:
                    continue
                q, args, wuse = P.one('m::Catalog::set_database_in_use'), [('ref', ('root', 'db', n))], n
            elif op == 'in_use':
                q, res = P.one('m::Catalog::get_database_in_use', pred=lambda f: not f.raw.get('const')), 'throw' if use is None else ('db', use)
            elif op == 'has_in_use':
                q, res = P.one('m::Catalog::has_database_in_use'), int(use is not None)
            elif op == 'unset':
                q, wuse = P.one('m::Catalog::unset_database_in_use'), None
            elif op == 'clear':
                q, wuse, want = P.one('m::Catalog::Clear'), None, set()
                st = st.set(('g', 'm::Catalog::the_catalog_'), ('p', CAT))
                cur = None
            elif op == 'num':
                q, res = P.one('m::Catalog::num_databases'), len(names)
            else:
                q, cmd = P.one('m::%s::execute' % op), True
                cur = ('root', 'cmd')
                args = [('ref', ('root', 'diag'))]
                st = st.set(cur + (W.cmdname,), NAMES[n])
                if op == 'CreateDatabase':
                    res = 'err' if exists else None
                    want |= {n}
                elif op == 'DropDatabase':
                    res = None if exists and n != use else 'err'
                    want -= {n} if res is None else set()
                else:
                    res = None if exists else 'err'
                    wuse = n if exists else use
            W.op = op if cmd else q.q
            rets, thrown = W.run(q, st, cur, args)
            nob += 1
            judge(W, rets, thrown, res, cmd)
            outs = [s for v, s in rets] + [s for t, s in thrown]
            for s in outs:
                gn, gu, objs = W.read(s)
                if set(gn) != want or len(gn) != len(want):
                    W.viol('set', 'leaves the databases {%s} instead of {%s}' % (', '.join(gn), ', '.join(sorted(want))))
                if gu != wuse:
                    W.viol('use', 'leaves %s in use instead of %s' % (gu, wuse))
                for k in set(names) & want:
                    if objs.get(k) not in (None, ('root', 'db', k)):
                        W.viol('kept', 'replaces the existing database of a name')
                for k in set(names) - set(gn):
                    if not s.mem.get(('root', 'db', k, '__dead')):
                        W.viol('leak', 'removes a database without destroying it')
            for v, s in rets:
                if isinstance(res, tuple) and res[0] == 'db':
                    ok = isinstance(v, tuple) and v[0] in ('lref', 'p', 'obj') and s.mem.get(v[1] + ('name',)) == NAMES[res[1]]
                    if not ok:
                        W.viol('result', 'does not return the database of the given name')
                elif isinstance(res, int):
                    for b, _ in W.E.split(v, s) if res in (0, 1) and not isinstance(v, int) else [(v, s)]:
                        if int(b) != res:
                            W.viol('result', 'returns %s instead of %s' % (b, res))
    c.use(W.E)
    c.ob(nob)
    c.floor('operation instances', nob, 150)
    c.rule('Every operation on the set of databases, and every command that uses one, is interpreted from every state of up to two databases; its outcomes '
           '(databases, database in use, result or exception, diagnostics) must equal those of the reference operation.')


def judge(W, rets, thrown, res, cmd):
    if cmd:
        if thrown:
            W.viol('throws', 'lets an exception escape')
        if not rets:
            W.viol('none', 'has no normal outcome')
        for v, s in rets:
            err, out = outcome(s)
            if res == 'err' and not err:
                W.viol('silent', 'does not report the error')
            if res == 'err' and out:
                W.viol('ack', 'acknowledges an operation that failed')
            if res != 'err' and err:
                W.viol('spurious', 'reports an error although the operation is possible')
    elif res == 'throw':
        if rets:
            W.viol('nothrow', 'does not throw an exception')
        if not thrown:
            W.viol('none', 'does not throw an exception')
    else:
        if thrown:
            W.viol('throws', 'throws an exception')
        if not rets:
            W.viol('none', 'has no normal outcome')


# ------------------------------------------------------------------------------------------------- D02: tables and indexes
ATTRS = ('a', 'b')


class Tabs(World):
    """State: (table names, index entries (name, table, attribute, method, valid) in list order)"""

    def __init__(self, c, pid='D02', tus=('src/catalog/DatabaseCommand.cpp', 'src/catalog/Schema.cpp')):
        super().__init__(c, pid, list(tus))
        P, E, M = self.P, self.E, self.E.models
        D = 'm::Database'
        self.ftabs = field(P, D, lambda T: T.get('rec') == 'std::unordered_map' and 'm::Table' in T['s'], 'the tables')
        self.ffuns = field(P, D, lambda T: T.get('rec') == 'std::unordered_map' and 'm::Function' in T['s'], 'the functions')
        self.fidx = field(P, D, lambda T: T.get('rec') in ('std::list', 'std::vector', 'std::deque') and 'index_entry_type' in T['s'], 'the indexes')
        I = D + '::index_entry_type'
        self.iname = field(P, I, lambda T: T.get('rec') == 'm::Pooled', 'the name')
        self.itab = field(P, I, lambda T: T.get('rec') == 'm::Table', 'the table')
        self.iattr = field(P, I, lambda T: T.get('rec') == 'm::Attribute', 'the attribute')
        self.iidx = field(P, I, lambda T: T.get('rec') == 'std::unique_ptr', 'the index')
        self.ivalid = field(P, I, lambda T: T.get('bt') == 'bool', 'the validity')
        CT = 'm::ConcreteTable'
        self.tname = field(P, CT, lambda T: T.get('rec') == 'm::Pooled', 'the name')
        self.tattrs = field(P, CT, lambda T: T.get('rec') == 'std::vector', 'the attributes')
        self.tmap = field(P, CT, lambda T: T.get('rec') == 'std::unordered_map', 'the attribute names')
        self.tdeco = field(P, 'm::TableDecorator', lambda T: T.get('rec') == 'std::unique_ptr', 'the decorated table')
        self.methods = sorted(P.enums['m::idx::IndexMethod'].values())
        if len(self.methods) < 2:
            raise AnalysisBroken('anchor vanished: the index methods')
        M['m::idx::IndexBase::method'] = lambda E, e, st, fr: [(s.mem[l + ('__method',)], s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Catalog::get_database_in_use'] = lambda E, e, st, fr: [(('lref', DB), st)]
        M['m::Catalog::has_database_in_use'] = lambda E, e, st, fr: [(1, st)]
        M['m::TableFactory::make'] = self.mk_table
        M['m::Catalog::table_factory'] = lambda E, e, st, fr: [(('lref', ('root', 'factory')), st)]
        E.opaque |= {'m::Catalog::timer', 'm::Timer::create_timing', 'm::Catalog::data_layout', 'm::Catalog::create_store', 'm::Catalog::pool'}
        M['m::Catalog::timer'] = lambda E, e, st, fr: [(('lref', ('root', 'timer')), st)]
        M['m::Timer::create_timing'] = lambda E, e, st, fr: E.fresh_value(e, st, fr) if hasattr(E, 'fresh_value') else [(('s', 'timing'), st)]
        M['m::Catalog::create_store'] = self.create_store
        M['m::Table::store'] = lambda E, e, st, fr: self.tab_event(e, st, fr, 'store') if e['args'] else None
        M['m::Table::layout'] = lambda E, e, st, fr: self.tab_event(e, st, fr, 'layout') if e['args'] else None
        M['m::Table::schema'] = self.schema
        M['m::idx::IndexBase::bulkload'] = self.bulkload
        M['ctor:m::Schema'] = lambda E, e, loc, st, fr: None if False else self.schema_ctor(E, e, loc, st, fr)
        M['m::Schema::add'] = self.schema_add

    # -- models of neighbours
    def mk_table(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            n = v[1] if isinstance(v, tuple) and v[0] == 'str' else None
            if n is None:
                raise AnalysisBroken('%s: a table with an unknown name is made' % fr.fn.loc(e))
            s = self.new_table(s, n, ('root', 'tab', 'new'))
            out.append((('p', ('root', 'tab', 'new')), s))
        return out

    def create_store(self, E, e, st, fr):
        l, s = E.lv(e['args'][0], st, fr)[0]
        return [(('p', ('root', 'store') + l), s)]

    def tab_event(self, e, st, fr, what):
        E = self.E
        out = []
        for l, s in E.obj_loc(e, st, fr):
            self.access(e, l, s, fr)
            for v, s2 in (E.take(E, e['args'][0], s, fr) if what == 'store' else [(0, s3) for s3 in E.ev_list_states(e['args'], s, fr)]):
                if what == 'store' and v != ('p', ('root', 'store') + l):
                    self.viol('store', 'gives the table a store that was not created for it', e, fr)
                out.append((VOID, self.event(s2, (what, l))))
        return out

    def schema(self, E, e, st, fr):
        """Table::schema(): one entry per visible attribute, in order."""
        loc = ('t', fr.depth, E.site(e, fr))
        out = []
        for l, s in E.obj_loc(e, st, fr):
            base = self.concrete(l, s)
            s = E.kill_prefix(loc, s)
            s = make(s, loc, range(len(ATTRS)))
            for i, a in enumerate(elems(s, base + (self.tattrs,))):
                s = s.set(node(loc, i) + ('id', 'name'), s.mem.get(a + ('name',))).set(node(loc, i) + ('__attr',), ('p', a))
            out.append((('obj', loc), s))
        return out

    def schema_ctor(self, E, e, loc, st, fr):
        if e['args']:
            return [(VOID, E.copy_obj(l, loc, s)) for l, s in E.lv(e['args'][0], st, fr)]
        return [(VOID, make(E.kill_prefix(loc, st).set(loc + ('__alive',), 1), loc))]

    def schema_add(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            if len(e['args']) == 1 and seq(s, l) is not None:
                for a, s2 in E.lv(e['args'][0], s, fr):
                    i = len(seq(s2, l))
                    s2 = E.copy_obj(a, node(l, i), s2)
                    out.append((VOID, self.K.put(s2, l, i, i)))
            else:
                a = [self.K.val(x, s, fr)[0][0] for x in e['args']]
                i = len(seq(s, l))
                nm = a[0]
                if isinstance(nm, tuple) and nm[:1] == ('obj',):
                    nm = s.mem.get(nm[1] + ('name',))
                out.append((VOID, self.K.put(s.set(node(l, i) + ('id', 'name'), nm), l, i, i)))
        return out

    def bulkload(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            t, s = E.lv(e['args'][0], s, fr)[0]
            sc, s = E.lv(e['args'][1], s, fr)[0]
            ids = seq(s, sc)
            names = None if ids is None else tuple(s.mem.get(x + ('id', 'name')) for x in elems(s, sc))
            s = self.event(s, ('bulkload', l, t, names))
            E.throw('m::invalid_argument', None, self.event(s, ('failed',)), e, fr)
            out.append((VOID, s))
        return out

    # -- the abstract state
    def concrete(self, l, st):
        d = st.mem.get(l + (self.tdeco,))
        return d[1] if isinstance(d, tuple) and d[:1] == ('p',) else l

    def new_table(self, st, n, loc):
        """Table u is a decorated one."""
        if n == 'u':
            st = st.set(loc + ('__cls',), ('str', 'm::MultiVersioningTable')).set(loc + (self.tdeco,), ('p', loc + ('inner',)))
            loc = loc + ('inner',)
        st = st.set(loc + ('__cls',), ('str', 'm::ConcreteTable')).set(loc + (self.tname,), NAMES[n])
        A, Mp = loc + (self.tattrs,), loc + (self.tmap,)
        st = make(make(st, A, range(len(ATTRS))), Mp, range(len(ATTRS)))
        top = loc[:-1] if loc[-1] == 'inner' else loc
        for i, a in enumerate(ATTRS):
            x = node(A, i)
            st = st.set(x + ('id',), i).set(x + ('name',), NAMES[a]).set(x + ('table', '__ref'), loc).set(x + ('is_hidden',), 0)
            st = st.set(node(Mp, i) + ('first',), NAMES[a]).set(node(Mp, i) + ('second',), i)
        return st

    def attr(self, tab, a, st):
        return node(self.concrete(tab, st) + (self.tattrs,), ATTRS.index(a))

    def load(self, state):
        tabs, idx = state
        st = State().withmon(())
        T, L = DB + (self.ftabs,), DB + (self.fidx,)
        st = make(make(make(st, T, range(len(tabs))), L, range(len(idx))), DB + (self.ffuns,))
        st = st.set(DB + ('name',), NAMES['d'])
        for i, n in enumerate(tabs):
            loc = ('root', 'tab', n)
            st = self.new_table(st, n, loc)
            st = st.set(node(T, i) + ('first',), NAMES[n]).set(node(T, i) + ('second',), ('p', loc))
        for i, (n, t, a, m, v) in enumerate(idx):
            x = node(L, i)
            st = st.set(x + (self.iname,), NAMES[n]).set(x + (self.itab, '__ref'), ('root', 'tab', t)).set(x + (self.iattr, '__ref'), self.attr(('root', 'tab', t), a, st))
            st = st.set(x + (self.iidx,), ('p', ('root', 'idx', n))).set(x + (self.ivalid,), v).set(('root', 'idx', n, '__method'), m)
        return st

    def read(self, st):
        T, L = DB + (self.ftabs,), DB + (self.fidx,)
        if seq(st, T) is None or seq(st, L) is None:
            raise AnalysisBroken('the tables or indexes are unknown')
        tabs = {}
        for x in elems(st, T):
            k, v = st.mem.get(x + ('first',)), st.mem.get(x + ('second',))
            if not (isinstance(v, tuple) and v[:1] == ('p',)):
                self.viol('entry', 'a name is mapped to no table')
                continue
            if st.mem.get(v[1] + ('__dead',)):
                self.viol('dangling', 'a name is mapped to a destroyed table')
            if st.mem.get(self.concrete(v[1], st) + (self.tname,)) != k:
                self.viol('name', 'a table is registered under a name that is not its own')
            tabs[k[1]] = v[1]
        idx = []
        for x in elems(st, L):
            n, t, a = st.mem.get(x + (self.iname,)), st.mem.get(x + (self.itab, '__ref')), st.mem.get(x + (self.iattr, '__ref'))
            p, v = st.mem.get(x + (self.iidx,)), st.mem.get(x + (self.ivalid,))
            if not (isinstance(p, tuple) and p[:1] == ('p',)):
                self.viol('noindex', 'an index entry owns no index')
                continue
            if t not in tabs.values():
                self.viol('orphan', 'an index refers to a table that does not exist any more')
                tn = an = None
            else:
                tn = [k for k, y in tabs.items() if y == t][0]
                A = self.concrete(t, st) + (self.tattrs,)
                an = ATTRS[a[-1][1]] if a is not None and a[:-1] == A else None
                if an is None:
                    self.viol('attr', 'an index refers to an attribute that is not one of its table')
            idx.append((n[1], tn, an, st.mem.get(p[1] + ('__method',)), v, p[1]))
        return tabs, tuple(idx)


def d02_states(W, thorough):
    m = W.methods[:2]
    out = []
    for tabs in ((), ('t',), ('u',), ('t', 'u')):
        one = [(t, a, k, v) for t in tabs for a in ATTRS for k in m for v in (1, 0)]
        out.append((tabs, ()))
        out += [(tabs, (('i',) + x,)) for x in one]
        for x in one:
            for y in one:
                if not thorough and sum(p != q for p, q in zip(x, y)) > 1:
                    continue
                out.append((tabs, (('i',) + x, ('j',) + y)))
    if thorough:
        one = [(t, 'a', m[0], v) for t in ('t', 'u') for v in (1, 0)]
        for x, y, z in itertools.product(one, repeat=3):
            out.append((('t', 'u'), (('i',) + x, ('j',) + y, ('k',) + z)))
    return out


def want_op(op, args, tabs, idx, m):
    """Reference: (tables, entries, result)"""
    byname = {e[0]: e for e in idx}
    T = set(tabs)
    if op in ('add', 'add_table'):
        n = args[0]
        return (T, idx, 'throw') if n in T else (T | {n}, idx, ('tab', n))
    if op == 'get_table':
        return T, idx, ('tab', args[0]) if args[0] in T else 'throw'
    if op == 'has_table':
        return T, idx, int(args[0] in T)
    if op == 'size':
        return T, idx, len(T)
    if op == 'drop_table':
        n = args[0]
        return (T - {n}, tuple(e for e in idx if e[1] != n), None) if n in T else (T, idx, 'throw')
    if op == 'add_index':
        t, a, n = args
        if n in byname or t not in T or a not in ATTRS:
            return T, idx, 'throw'
        return T, idx + ((n, t, a, m[0], 1),), None
    if op == 'drop_index':
        n = args[0]
        return (T, tuple(e for e in idx if e[0] != n), None) if n in byname else (T, idx, 'throw')
    if op == 'drop_indexes':
        t = args[0]
        return (T, tuple(e for e in idx if e[1] != t), None) if t in T else (T, idx, 'throw')
    if op == 'invalidate_indexes':
        t = args[0]
        return (T, tuple(e[:4] + (0,) if e[1] == t else e for e in idx), None) if t in T else (T, idx, 'throw')
    if op == 'has_index':
        if len(args) == 1:
            return T, idx, int(args[0] in byname)
        t, a, k = args
        if t not in T or a not in ATTRS:
            return T, idx, 'throw'
        return T, idx, int(any(e[1:] == (t, a, k, 1) for e in idx))
    if op == 'get_index':
        if len(args) == 1:
            return T, idx, ('idx', {args[0]}) if args[0] in byname else 'throw'
        t, a, k = args
        ok = {e[0] for e in idx if e[1:] == (t, a, k, 1)}
        if t not in T or a not in ATTRS or not ok:
            return T, idx, 'throw'
        return T, idx, ('idx', ok)
    raise KeyError(op)


@check('D02', 'Tables and indexes of a database: names are unique, failures change nothing, dropped tables take their indexes along, stale indexes are never offered')
def d02(c):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    W = Tabs(c)
    P = W.P
    m = W.methods[:2]
    states = d02_states(W, thorough)
    tn, inn = ('t', 'u', 'x'), ('i', 'j', 'k')
    ops = [('size', ())]
    for n in tn:
        ops += [(o, (n,)) for o in ('get_table', 'has_table', 'drop_table', 'drop_indexes', 'invalidate_indexes', 'add')]
        ops += [('add_index', (n, a, i)) for a in ('a', 'x') for i in inn]
        ops += [(o, (n, a, k)) for o in ('has_index', 'get_index') for a in ('a', 'b', 'x') for k in m]
    ops += [('add_table', ('t',)), ('add_table', ('x',))]
    ops += [(o, (n,)) for o in ('drop_index', 'has_index', 'get_index') for n in inn]
    fns = {}
    for op, args in ops:
        key = (op, len(args))
        if key not in fns:
            np = len(args) + (op == 'add_index')
            fns[key] = P.one('m::Database::' + op, np)
    n = 0
    for state in states:
        tabs, idx = state
        base = W.load(state)
        for op, args in ops:
            n += 1
            fn = fns[(op, len(args))]
            W.op = fn.q
            W.show = 'tables {%s}, indexes %s; %s(%s)' % (', '.join(tabs), fmt(idx), op, ', '.join(map(str, args)))
            st = base
            av = []
            for i, a in enumerate(args):
                if isinstance(a, str):
                    st = st.set(('root', 'arg', i), NAMES[a])
                    av.append(('ref', ('root', 'arg', i)))
                else:
                    av.append(('val', a))
            if op == 'add':
                st = W.new_table(st, args[0], ('root', 'tab', 'new'))
                av = [('val', ('p', ('root', 'tab', 'new')))]
            if op == 'add_table':
                av = [('val', NAMES[args[0]])]
            if op == 'add_index':
                st = st.set(('root', 'idx', 'new', '__method'), m[0])
                av = [('val', ('p', ('root', 'idx', 'new')))] + av[:2] + [('val', NAMES[args[2]])]
            rets, thrown = W.run(fn, st, DB, av)
            T, I, res = want_op(op, args, tabs, idx, m)
            judge(W, rets, thrown, res, False)
            check_after(W, state, rets, thrown, T, I)
            for v, s in rets:
                if isinstance(res, tuple) and res[0] == 'tab':
                    cur = {k: l for k, l in W.read(s)[0].items()}
                    if not (isinstance(v, tuple) and len(v) == 2 and v[1] == cur.get(res[1])):
                        W.viol('result', 'does not return the table of the given name')
                elif isinstance(res, tuple):
                    if not (isinstance(v, tuple) and len(v) == 2 and v[1] in [('root', 'idx', k) for k in res[1]]):
                        W.viol('result', 'does not return the requested index')
                elif isinstance(res, int):
                    for b, _ in W.E.split(v, s) if not isinstance(v, int) else [(v, s)]:
                        if int(b) != res:
                            W.viol('result', 'returns %s instead of %s' % (b, res))
    c.floor('operation instances', n, 5000)
    k = d02_commands(c, W, [s for s in states if len(s[1]) < 3])
    c.floor('command instances', k, 500)
    c.use(W.E)
    c.ob(n + k)
    c.rule('Every operation of a database on its tables and indexes, and every command that uses one, is interpreted from every state of up to two tables (one '
           'plain, one decorated) with two attributes and up to two (thorough: three) indexes; result or exception, diagnostics, tables, index '
           'entries with their table, attribute and validity must equal those of the reference operation, and no entry may refer to a destroyed table.')


def fmt(idx):
    return '[%s]' % ', '.join('%s on %s.%s method %s %s' % (n, t, a, k, 'valid' if v else 'invalid') for n, t, a, k, v in idx)


def check_after(W, state, rets, thrown, T, I):
    tabs, idx = state
    for s in [s for _, s in rets] + [s for _, s in thrown]:
        gt, gi = W.read(s)
        if set(gt) != set(T):
            W.viol('tables', 'leaves the tables {%s} instead of {%s}' % (', '.join(sorted(gt)), ', '.join(sorted(T))))
        for k in set(tabs) & set(gt):
            if gt[k] != ('root', 'tab', k):
                W.viol('replaced', 'replaces an existing table')
        if sorted(e[:5] for e in gi) != sorted(I):
            W.viol('indexes', 'leaves the indexes %s instead of %s' % (fmt([e[:5] for e in gi]), fmt(I)))
        for e in gi:
            if e[5] not in (('root', 'idx', e[0]), ('root', 'idx', 'new')):
                W.viol('swap', 'an index entry owns the index of another entry')


def d02_commands(c, W, states):
    P = W.P
    n = 0
    CMD = ('root', 'cmd')
    m = W.methods[:2]
    for state in states:
        tabs, idx = state
        byname = {e[0]: e for e in idx}

        def go(cls, setup, show):
            nonlocal n
            n += 1
            fn = P.one('m::%s::execute' % cls)
            W.op = cls
            W.show = 'tables {%s}, indexes %s; %s' % (', '.join(tabs), fmt(idx), show)
            st = setup(W.load(state))
            return W.run(fn, st, CMD, [('ref', ('root', 'diag'))])
        # CREATE TABLE
        ft = field(P, 'm::CreateTable', lambda T: T.get('rec') == 'std::unique_ptr', 'the table')
        if len(idx) < 2:
            for name in ('t', 'u', 'x'):
                loc = ('root', 'tab', 'new')
                rets, thrown = go('CreateTable', lambda st: W.new_table(st, name, loc).set(CMD + (ft,), ('p', loc)), 'CREATE TABLE ' + name)
                res = 'err' if name in tabs else None
                judge(W, rets, thrown, res, True)
                check_after(W, state, rets, [], set(tabs) | {name}, idx)
                for v, s in rets:
                    got = [(x[0], x[1]) for x in s.mon if x[0] in ('store', 'layout')]
                    if res is None and sorted(got) != [('layout', loc), ('store', loc)]:
                        W.viol('physical', 'does not give the new table exactly one layout and one store')
                    if res and got:
                        W.viol('clobber', 'changes the layout or store of a table although it failed')
        # DROP TABLE
        fd = field(P, 'm::DropTable', lambda T: T.get('rec') == 'std::vector', 'the table names')
        for names in (('t',), ('x',), ('t', 'u'), ('x', 'u'), ('t', 't')):
            def setup(st):
                st = make(st, CMD + (fd,), range(len(names)))
                for i, x in enumerate(names):
                    st = st.set(node(CMD + (fd,), i), NAMES[x])
                return st
            rets, thrown = go('DropTable', setup, 'DROP TABLE ' + ', '.join(names))
            left = set(tabs)
            nerr = 0
            for x in names:
                nerr += x not in left
                left -= {x}
            judge(W, rets, thrown, 'err' if nerr == len(names) else None if not nerr else 'some', True) if nerr in (0, len(names)) else None
            for v, s in rets:
                if outcome(s)[0] < (nerr > 0):
                    W.viol('silent', 'does not report the error')
            if thrown:
                W.viol('throws', 'lets an exception escape')
            check_after(W, state, rets, [], left, tuple(e for e in idx if e[1] in left))
        # CREATE INDEX
        fi = field(P, 'm::CreateIndex', lambda T: T.get('rec') == 'std::unique_ptr', 'the index')
        ps = [f['n'] for f in P.recs['m::CreateIndex']['fields'] if P.recs['m::CreateIndex']['types'][f['t']].get('rec') == 'm::Pooled']
        if sorted(ps) != sorted(('table_name_', 'attribute_name_', 'index_name_')):
            raise AnalysisBroken('anchor vanished: the names of CreateIndex')
        for t in tabs:
            for iname in ('i', 'k'):
                loc = ('root', 'idx', 'new')

                def setup(st):
                    st = st.set(CMD + (fi,), ('p', loc)).set(loc + ('__method',), m[0])
                    return st.set(CMD + ('table_name_',), NAMES[t]).set(CMD + ('attribute_name_',), NAMES['b']).set(CMD + ('index_name_',), NAMES[iname])
                rets, thrown = go('CreateIndex', setup, 'CREATE INDEX %s ON %s (b)' % (iname, t))
                if thrown:
                    W.viol('throws', 'lets an exception escape')
                ok = [r for r in rets if ('failed',) not in r[1].mon]
                bad = [r for r in rets if ('failed',) in r[1].mon]
                dup = iname in byname
                judge(W, ok, [], 'err' if dup else None, True)
                check_after(W, state, ok, [], tabs, idx if dup else idx + ((iname, t, 'b', m[0], 1),))
                W.show += ', bulkloading fails'
                if bad:
                    judge(W, bad, [], 'err', True)
                    check_after(W, state, bad, [], tabs, idx)
                for v, s in ok:
                    loads = [x for x in s.mon if x[0] == 'bulkload']
                    if not dup and [x[1:] for x in loads] != [(loc, ('root', 'tab', t), (NAMES['b'],))]:
                        W.viol('bulkload', 'does not load the new index exactly once from the indexed attribute of its table')
        # DROP INDEX
        fx = field(P, 'm::DropIndex', lambda T: T.get('rec') == 'std::vector', 'the index names')
        for names in (('i',), ('k',), ('k', 'j'), ('j', 'i')):
            def setup(st):
                st = make(st, CMD + (fx,), range(len(names)))
                for i, x in enumerate(names):
                    st = st.set(node(CMD + (fx,), i), NAMES[x])
                return st
            rets, thrown = go('DropIndex', setup, 'DROP INDEX ' + ', '.join(names))
            miss = [x for x in names if x not in byname]
            if thrown:
                W.viol('throws', 'lets an exception escape')
            if not rets:
                W.viol('none', 'has no normal outcome')
            for v, s in rets:
                err, out = outcome(s)
                if bool(err) != bool(miss):
                    W.viol('report', 'reports an error iff no index was missing')
                if len(miss) == len(names) and out:
                    W.viol('ack', 'acknowledges an operation that failed')
            check_after(W, state, rets, [], tabs, tuple(e for e in idx if e[0] not in names))
    return n
