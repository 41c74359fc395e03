"""W01: rows written by INSERT and by imports."""
import itertools
import os

from ..containers import elems, make, node, seq
from ..engine import NULL, VOID, State
from ..ir import AnalysisBroken
from ..registry import check
from .catalog import DB, NAMES
from .tables import Sem, TYPES, schema_entries

TUS = ('src/catalog/DatabaseCommand.cpp', 'src/mutable.cpp')
START = ('s', 'start time')
BASE = 5                # rows in the store before
NAMES.update({n: ('str', n) for n in ('h', 'g', 'c')})


class Ins(Sem):
    def __init__(self, c):
        super().__init__(c, 'W01', TUS)
        P, E, M = self.P, self.E, self.E.models
        E.MAX_DEPTH = 20
        E.value_classes_exact = set(E.value_classes_exact) | {'m::Value'}
        M['ctorval:m::Value'] = self.value
        M['ctor:m::Tuple'] = self.tuple
        T = 'm::Tuple::'
        M[T + 'clear'] = lambda E, e, st, fr: [(VOID, self.nulls(l, s)) for l, s in E.obj_loc(e, st, fr)]
        M[T + 'null'] = lambda E, e, st, fr: self.tset(e, st, fr, lambda s, l, i, a: s.set(l + ('null', i), 1))
        M[T + 'not_null'] = lambda E, e, st, fr: self.tset(e, st, fr, lambda s, l, i, a: s.set(l + ('null', i), 0))
        M[T + 'set'] = lambda E, e, st, fr: self.tset(e, st, fr, lambda s, l, i, a: s.set(l + ('null', i), a[1] if len(a) > 1 else 0).set(l + ('val', i), a[0]))
        M[T + 'is_null'] = lambda E, e, st, fr: [(s.mem.get(l + ('null', i)), s) for l, s in E.obj_loc(e, st, fr) for i, s in E.ev(e['args'][0], s, fr)]
        S = 'm::StackMachine'
        M['ctor:' + S] = self.sm
        E.model_pred.insert(0, (lambda q, e: q.startswith(S + '::emit'), self.emit))
        M[S + '::operator()'] = self.exec
        M['m::Interpreter::compile_store'] = self.compile_store
        M['m::Store::append'] = lambda E, e, st, fr: self.on_store(e, st, fr, 1)
        M['m::Store::drop'] = lambda E, e, st, fr: self.on_store(e, st, fr, -1)
        M['m::Store::num_rows'] = lambda E, e, st, fr: [(s.mem[l + ('__rows',)], s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Store::table'] = lambda E, e, st, fr: [(('lref', s.mem[l + ('__table',)]), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Store::memory'] = lambda E, e, st, fr: [(('lref', l + ('memory',)), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::memory::Memory::addr'] = lambda E, e, st, fr: [(('p', l + ('addr',)), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Table::store'] = lambda E, e, st, fr: [(('lref', ('root', 'store') + l), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Table::layout'] = lambda E, e, st, fr: [(('lref', ('root', 'layout') + l), s) for l, s in E.obj_loc(e, st, fr)]
        for q in list(P.by_q):
            if q.endswith('Command::transaction'):
                M[q] = lambda E, e, st, fr: [(('p', ('root', 'tx')), st)] if not e['args'] else None
        M['m::Scheduler::Transaction::start_time'] = lambda E, e, st, fr: [(START, st)]
        M['m::Diagnostic::num_errors'] = lambda E, e, st, fr: [(('s', 'errors'), st)]
        R = 'm::DSVReader'
        M['ctor:' + R] = self.reader
        M[R + '::operator()'] = self.read_file
        M['m::Reader::operator()'] = self.read_file
        E.opaque |= {'m::unescape', 'strtol', 'std::strtol', 'strerror', 'm::DSVReader::Config::CSV', 'strlen'}
        E.insist_hook = lambda e, s, f: None if 'Timer.hpp' in f.fn.loc(e) else self.viol('assert', 'an assertion can fail', e, f)
        self.tys = [('p', ('root', 'ty', k)) for k in ('e0', 'e1', 'e2')]
        self.shared = {}
        self.ast = next(q for q in ('m::ast::InsertStmt',))
        self.kinds = {k.split('::')[-1]: v for k, v in P.enums['m::ast::InsertStmt::kind_t'].items()} if 'm::ast::InsertStmt::kind_t' in P.enums else None

    # -- models
    def value(self, E, e, st, fr):
        out = []
        a = e['args']
        for v, s in (self.K.val(a[0], st, fr) if a else [(0, st)]):
            t = fr.fn.ty(a[0]) if a else {}
            if isinstance(v, tuple) and v[:1] == ('value',):
                out.append((v, s))
                continue
            k = 'b' if t.get('bt') == 'bool' else 'f' if t.get('bt') in ('float', 'double') else 'p' if t.get('ptr') else 'i'
            out.append((('value', k, v), s))
        return out

    def nulls(self, l, s):
        for i in range(8):
            s = s.set(l + ('null', i), 1)
        return s

    def tuple(self, E, e, loc, st, fr):
        st = E.kill_prefix(loc, st)
        out = []
        for l, s in (E.lv(e['args'][0], st, fr) if e['args'] else [(None, st)]):
            if l is None:
                raise AnalysisBroken('%s: a tuple of an unknown schema' % fr.fn.loc(e))
            out.append((VOID, self.nulls(loc, s).set(loc + ('__n',), len(schema_entries(self, s, ('obj', l)))).set(loc + ('__alive',), 1)))
        return out

    def index(self, i, s, l, e, fr):
        if not isinstance(i, int):
            raise AnalysisBroken('%s: unknown tuple index %s' % (fr.fn.loc(e), i))
        n = s.mem.get(l + ('__n',))
        if n is not None and not 0 <= i < n:
            self.viol('bounds', 'accesses value %d of a tuple of %d' % (i, n), e, fr)

    def tset(self, e, st, fr, upd):
        E = self.E
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for i, s in self.K.val(e['args'][0], s, fr):
                vals = [((), s)]
                for a in e['args'][1:]:
                    vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.K.val(a, s2, fr)]
                for a, s2 in vals:
                    self.index(i, s2, l, e, fr)
                    out.append((VOID, upd(s2, l, i, a)))
        return out

    def sm(self, E, e, loc, st, fr):
        a = e['args']
        if a and (fr.fn.ty(a[0]) or {}).get('rec') == 'm::StackMachine':
            return [(VOID, E.copy_obj(l, loc, E.kill_prefix(loc, s))) for l, s in E.lv(a[0], st, fr)]
        out = []
        for s in E.ev_list_states(a, st, fr):
            out.append((VOID, E.kill_prefix(loc, s).set(loc + ('__prog',), ()).set(loc + ('__alive',), 1)))
        return out

    def emit(self, E, e, st, fr):
        op = e['q'].split('::')[-1]
        out = []
        for l, s in E.obj_loc(e, st, fr):
            vals = [((), s)]
            for a in e['args']:
                t = fr.fn.ty(a) or {}
                if t.get('rec') and not t.get('ptr') or op == 'emit' and a is e['args'][0]:
                    vals = [(p + (x,), s3) for p, s2 in vals for x, s3 in E.lv(a, s2, fr)]
                else:
                    vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.K.val(a, s2, fr)]
            for a, s2 in vals:
                prog = s2.mem.get(l + ('__prog',))
                if not isinstance(prog, tuple):
                    raise AnalysisBroken('%s: unknown program' % fr.fn.loc(e))
                out.append((VOID, s2.set(l + ('__prog',), prog + ((op,) + a,))))
        return out

    def exec(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for args, s2 in self.K.val(e['args'][0], s, fr):
                w = s2.mem.get(l + ('__writer',))
                if w is not None:
                    t = self.arg(args, 0, s2, e, fr)
                    row = tuple(('NULL' if s2.mem.get(t + ('null', i)) == 1 else s2.mem.get(t + ('val', i))) if s2.mem.get(t + ('null', i)) in (0, 1)
                                else ('maybe', s2.mem.get(t + ('null', i)), s2.mem.get(t + ('val', i))) for i in range(s2.mem.get(t + ('__n',), 0)))
                    s2 = self.event(s2, ('write', w[0], w[2], row)).set(l + ('__writer',), (w[0], w[1], w[2] + 1))
                else:
                    s2 = self.exec_prog(s2.mem.get(l + ('__prog',)), args, s2, e, fr)
                out.append((VOID, s2))
        return out

    def arg(self, args, k, s, e, fr):
        if not isinstance(k, int) or not (isinstance(args, tuple) and args[:1] == ('p',)):
            raise AnalysisBroken('%s: unknown tuple argument %s' % (fr.fn.loc(e), args))
        l = args[1]
        for cand in (l[:-1] + (('i', l[-1][1] + k),) if isinstance(l[-1], tuple) and l[-1][0] == 'i' else None, l if k == 0 else None):
            if cand is not None:
                v = s.mem.get(cand)
                if isinstance(v, tuple) and v[:1] == ('p',):
                    return v[1]
        raise AnalysisBroken('%s: unknown tuple argument %s' % (fr.fn.loc(e), [x for x in s.mem.items() if x[0][:len(l)] == l]))

    def exec_prog(self, prog, args, s, e, fr):
        stack = []
        for ins in prog:
            op, a = ins[0], ins[1:]
            if op == 'emit':
                stack.append(('expr', a[0]))
            elif op == 'emit_Cast':
                if a[0] != a[1]:
                    stack.append(('cast', a[0], a[1], stack.pop()))
            elif op in ('emit_St_Tup', 'emit_St_Tup_Null'):
                t = self.arg(args, a[0], s, e, fr)
                self.index(a[1], s, t, e, fr)
                if op == 'emit_St_Tup_Null':
                    s = s.set(t + ('null', a[1]), 1)
                else:
                    v = stack.pop() if stack else ('nothing',)
                    s = s.set(t + ('null', a[1]), 0).set(t + ('val', a[1]), ('stored', a[2], v))
            elif op == 'emit_Pop':
                stack and stack.pop()
            else:
                raise AnalysisBroken('%s: instruction %s in a program that makes a row' % (fr.fn.loc(e), op))
        return s

    def compile_store(self, E, e, st, fr):
        loc = ('t', fr.depth, E.site(e, fr))
        vals = [((), st)]
        for a in e['args']:
            t = fr.fn.ty(a) or {}
            if t.get('rec') and not t.get('ptr'):
                vals = [(p + (x,), s3) for p, s2 in vals for x, s3 in E.lv(a, s2, fr)]
            else:
                vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.K.val(a, s2, fr)]
        out = []
        for (ts, addr, lay, ls, row, *rest), s in vals:
            if not (isinstance(addr, tuple) and addr[:1] == ('p',) and addr[1][:2] == ('root', 'store') and addr[1][-2:] == ('memory', 'addr')):
                self.viol('address', 'writes to an address that is not the memory of the store', e, fr)
                continue
            tab = addr[1][2:-2]
            if lay != ('root', 'layout') + tab:
                self.viol('layout', 'writes with a data layout that is not the one of the table', e, fr)
            names = [[(n, t) for p, n, t, c in schema_entries(self, s, ('obj', x))] for x in (ts, ls)]
            tn = {v: k for k, v in TYPES.items()}
            want = [(s.mem.get(y + ('name',))[1], tn.get(s.mem.get(y + (self.ftype,)))) for y in elems(s, self.concrete(tab, s) + (self.tattrs,))]
            if names[1] != want:
                self.viol('lschema', 'writes with a schema that is not the one of the table', e, fr)
            if names[0] != want:
                self.viol('tschema', 'takes rows to have a schema that is not the one of the table', e, fr)
            if rest and rest[0] != 0:
                raise AnalysisBroken('%s: rows are not the first tuple' % fr.fn.loc(e))
            if not isinstance(row, int):
                raise AnalysisBroken('%s: unknown row' % fr.fn.loc(e))
            out.append((('obj', loc), E.kill_prefix(loc, s).set(loc + ('__writer',), (tab, ts, row)).set(loc + ('__alive',), 1)))
        return out

    def on_store(self, e, st, fr, d):
        out = []
        for l, s in self.E.obj_loc(e, st, fr):
            n = s.mem[l + ('__rows',)] + d
            out.append((VOID, self.event(s.set(l + ('__rows',), n), ('rows', l[2:], n))))
        return out

    def reader(self, E, e, loc, st, fr):
        out = []
        for l, s in E.lv(e['args'][0], st, fr):
            for s2 in E.ev_list_states(e['args'][1:], s, fr):
                E.throw('m::invalid_argument', None, s2, e, fr)
                out.append((VOID, E.kill_prefix(loc, s2).set(loc + ('__table',), l).set(loc + ('__alive',), 1)))
        return out

    def read_file(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for s2 in E.ev_list_states(e['args'], s, fr):
                out.append((VOID, self.event(s2, ('import', s2.mem.get(l + ('__table',))))))
        return out

    # -- states
    def world(self, tabs, idx):
        """tabs: name -> (attrs, deco); idx: (name, table, attribute position, valid)"""
        st = State().withmon(())
        T, L = DB + (self.ftabs,), DB + (self.fidx,)
        st = make(make(make(st, T, range(len(tabs))), L, range(len(idx))), DB + (self.ffuns,))
        for i, (n, (attrs, deco)) in enumerate(tabs.items()):
            loc = ('root', 'tab', n)
            st = self.load_table(st, loc, n, attrs, (), deco)
            st = st.set(node(T, i) + ('first',), NAMES[n]).set(node(T, i) + ('second',), ('p', loc))
            st = st.set(('root', 'store') + loc + ('__rows',), BASE).set(('root', 'store') + loc + ('__table',), loc)
        for i, (n, t, k, v) in enumerate(idx):
            x = node(L, i)
            tab = ('root', 'tab', t)
            st = st.set(x + (self.iname,), NAMES[n]).set(x + (self.itab, '__ref'), tab).set(x + (self.iattr, '__ref'), node(self.concrete(tab, st) + (self.tattrs,), k))
            st = st.set(x + (self.iidx,), ('p', ('root', 'idx', n))).set(x + (self.ivalid,), v).set(('root', 'idx', n, '__method'), self.methods[0])
        return st

    def insert(self, st, rows):
        L = ('root', 'stmt')
        st = st.set(L + ('__cls',), ('str', 'm::ast::InsertStmt')).set(L + ('table_name', 'text'), NAMES['t'])
        st = make(st, L + ('tuples',), range(len(rows)))
        for i, r in enumerate(rows):
            R = node(L + ('tuples',), i)
            st = make(st, R, range(len(r)))
            for j, (k, t) in enumerate(r):
                x = node(R, j)
                st = st.set(x + ('first',), self.kind(k))
                X = ('root', 'expr', i, j)
                st = st.set(x + ('second',), ('p', X) if k == 'Expr' else NULL).set(X + ('__cls',), ('str', 'm::ast::Designator')).set(X + (self.etype,), t)
        return st

    def kind(self, k):
        return self.kinds['I_' + k]

    def indexes(self, st):
        L = DB + (self.fidx,)
        if seq(st, L) is None:
            raise AnalysisBroken('the indexes are unknown')
        return {st.mem.get(x + (self.iname,))[1]: st.mem.get(x + (self.ivalid,)) for x in elems(st, L)}


INDEXES = (('i', 't', 0, 1), ('j', 'u', 0, 1), ('k', 't', 0, 1), ('x', 't', 0, 0))


def check_indexes(W, s, touched):
    v = W.indexes(s)
    for n, t, _, ok in INDEXES:
        if t == 't' and touched and v.get(n) != 0:
            W.viol('stale', 'leaves an index of the table valid although rows were added')
        if t != 't' and v.get(n) != ok:
            W.viol('other', 'changes the validity of an index of another table')


@check('W01', 'INSERT and imports write exactly the given rows into the attributes they are meant for')
def w01(c):
    W = Ins(c)
    P, E = W.P, W.E
    W.etype = field_of(P, 'm::ast::Expr', 'type')
    cmd = ('root', 'cmd')
    full = os.environ.get('VERIF_TIER') == 'thorough'
    V = lambda n, t=0: (n, t, 0, 0)
    H = lambda n, t='i8': (n, t, 1, 0)
    TS = [H('$ts_begin'), H('$ts_end')]
    tables = [([V('a', 0)], False), ([V('a', 0), V('b', 1)], False), (TS + [V('a', 0), V('b', 1)], True), ([V('a', 0), H('h', 1), V('b', 1)], False),
              ([H('h', 0), V('a', 1), V('b', 0)], False), ([V('a', 1), V('b', 1), H('h', 0)], False), (TS + [V('a', 0)], True), (TS + [V('a', 1), H('h', 0), V('b', 0)], True),
              (TS[:1] + [H('h', 0)] + TS[1:] + [V('a', 1), V('b', 0)], False)]
    nob = rowsn = 0
    for attrs, deco in tables:
        vis = [i for i, a in enumerate(attrs) if not a[2]]
        ats = [None] * len(attrs)
        st0 = W.world({'t': (attrs, deco), 'u': ([V('a', 0)], False)}, [(n, t, vis[0] if t == 't' else 0, v) for n, t, _, v in INDEXES])
        own = lambda i: st0.mem[node(W.concrete(('root', 'tab', 't'), st0) + (W.tattrs,), i) + (W.ftype,)]
        cells = [[('Null', NULL), ('Default', NULL), ('Expr', W.tys[0]), ('Expr', own(i))] for i in vis]
        single = [list(r) for r in itertools.product(*cells)]
        mixed = [r for r in single if len({x[0] for x in r}) > 1] or single[:3]
        progs = [[]] + [[r] for r in single] + [[r, q] for r in (single if full else mixed[:1] + single[-2:]) for q in (single if full else single[::3] + mixed[:1])] + [[r, q, r] for r in mixed[:2] for q in single[:(4 if full else 1)]]
        for rows in progs:
            for who in ('m::InsertRecords::execute', 'm::execute_statement'):
                W.op = who
                W.show = 'table (%s), rows %s' % (', '.join(a[0] + (' hidden' if a[2] else '') for a in attrs), ' '.join('(%s)' % ', '.join(x[0] if x[0] != 'Expr' else 'expression' for x in r) for r in rows))
                st = W.insert(st0, rows)
                fn = P.one(who)
                if who == 'm::InsertRecords::execute':
                    st = st.set(cmd + (field_of(P, 'm::DatabaseCommand', 'ast'),), ('p', ('root', 'stmt')))
                    rets, thrown = W.run(fn, st, cmd, [('ref', ('root', 'diag'))])
                else:
                    rets, thrown = W.run(fn, st, None, [('ref', ('root', 'diag')), ('ref', ('root', 'stmt')), ('val', 0)])
                nob += 1
                rowsn += len(rows)
                if thrown:
                    W.viol('throws', 'lets an exception escape')
                if not rets:
                    W.viol('none', 'has no normal outcome')
                want = []
                for i, r in enumerate(rows):
                    w = ['NULL'] * len(attrs)
                    for j, (k, t) in enumerate(r):
                        if k == 'Expr':
                            at = own(vis[j])
                            x = ('expr', ('root', 'expr', i, j))
                            w[vis[j]] = ('stored', at, x if at == t else ('cast', at, t, x))
                    for j, a in enumerate(attrs):
                        if who == 'm::InsertRecords::execute' and a[0] == '$ts_begin':
                            w[j] = ('value', 'i', START)
                        if who == 'm::InsertRecords::execute' and a[0] == '$ts_end':
                            w[j] = ('value', 'i', -1)
                    want.append(tuple(w))
                for v, s in rets:
                    have = BASE
                    got = []
                    for ev in s.mon:
                        if ev[0] == 'rows':
                            if ev[1] != ('root', 'tab', 't'):
                                W.viol('table', 'changes the store of another table')
                            have = ev[2]
                        elif ev[0] == 'write':
                            if ev[1] != ('root', 'tab', 't'):
                                W.viol('table', 'writes to the store of another table')
                            if ev[2] != BASE + len(got):
                                W.viol('position', 'writes the %d. new row at the wrong position' % (len(got) + 1))
                            if not ev[2] < have:
                                W.viol('room', 'writes a row before there is room for it')
                            got.append(ev[3])
                        elif ev[0] == 'err':
                            W.viol('error', 'reports an error')
                    if have != BASE + len(rows):
                        W.viol('count', 'adds %d rows instead of %d' % (have - BASE, len(rows)))
                    if len(got) != len(rows):
                        W.viol('written', 'writes %d rows instead of %d' % (len(got), len(rows)))
                    for g, w in zip(got, want):
                        for a, x, y in zip(attrs, g, w):
                            if x != y and not (y == 'NULL' and x == 'NULL'):
                                W.viol('cell', '%s attribute receives %s instead of %s' % ('hidden' if a[2] else 'visible', text(x), text(y)))
                    check_indexes(W, s, bool(rows))
    # imports
    st0 = W.world({'t': ([V('a', 0)], False), 'u': ([V('a', 0)], False)}, INDEXES)
    for who in ('m::ImportDSV::execute', 'm::execute_statement', 'm::load_from_CSV'):
        W.op, W.show = who, 'import into a table'
        fn = P.one(who)
        st = st0
        if who == 'm::ImportDSV::execute':
            tf = [f['n'] for f in P.recs['m::ImportDSV']['fields'] if P.recs['m::ImportDSV']['types'][f['t']].get('rec') == 'm::Table' or 'Table' in P.recs['m::ImportDSV']['types'][f['t']]['s']]
            st = st.set(cmd + (tf[0], '__ref'), ('root', 'tab', 't'))
            rets, thrown = W.run(fn, st, cmd, [('ref', ('root', 'diag'))])
        elif who == 'm::execute_statement':
            L = ('root', 'stmt')
            st = st.set(L + ('__cls',), ('str', 'm::ast::DSVImportStmt')).set(L + ('table_name', 'text'), NAMES['t']).set(L + ('path', 'text'), ('str', '"f"'))
            rets, thrown = W.run(fn, st, None, [('ref', ('root', 'diag')), ('ref', L), ('val', 0)])
        else:
            rets, thrown = W.run(fn, st, None, [('ref', ('root', 'diag')), ('ref', ('root', 'tab', 't')), ('ref', ('root', 'path')), ('val', ('s', 'n')), ('val', ('s', 'h')), ('val', ('s', 'k'))])
        nob += 1
        outs = [s for v, s in rets] + [s for t, s in thrown]
        if not any(ev[0] == 'import' for s in outs for ev in s.mon):
            W.viol('noimport', 'never reads the file')
        if not rets:
            W.viol('none', 'has no normal outcome')
        for s in outs:
            n = sum(ev[0] == 'import' for ev in s.mon)
            if n > 1:
                W.viol('twice', 'reads the file more than once')
            if any(ev[0] == 'import' and ev[1] != ('root', 'tab', 't') for ev in s.mon):
                W.viol('table', 'imports into another table')
            check_indexes(W, s, n > 0)
    c.use(E)
    c.ob(nob)
    c.stat('tables', len(tables))
    c.stat('rows', rowsn)
    c.floor('statements', nob, 300)
    c.rule('INSERT statements of up to three rows over all combinations of NULL, DEFAULT and expressions are interpreted on tables with visible and hidden attributes; the rows written to the store '
           '(position, attribute, cast, type), the timestamps and the validity of the indexes afterwards must be those of the reference.')


def field_of(P, cls, part):
    fs = [f['n'] for f in P.recs[cls]['fields'] if f['n'].strip('_') == part]
    if len(fs) != 1:
        raise AnalysisBroken('anchor vanished: %s of %s' % (part, cls))
    return fs[0]


def text(x):
    if x == 'NULL' or not isinstance(x, tuple):
        return 'NULL' if x == 'NULL' else 'an undefined value'
    if x[0] == 'value':
        return 'the start time' if x[2] == START else str(x[2])
    if x[0] == 'stored':
        v, c = x[2], ''
        while v[0] == 'cast':
            c += ' cast to type %s' % (v[1][1][-1] if isinstance(v[1], tuple) else v[1])
            v = v[3]
        return ('expression %d of row %d' % (v[1][3] + 1, v[1][2] + 1) if v[0] == 'expr' and isinstance(v[1], tuple) and len(v[1]) == 4 else 'some value') + c
    return 'an unknown value'
