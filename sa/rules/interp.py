"""I01: the operators of the interpreter.

Plans are built as operator objects over known tables; the interpreter's visitors are interpreted on them and the rows that reach the
root are compared with relational algebra.  Programs of the stack machine are recorded by a model of its emitters and executed on the
known tuples; what the instructions themselves do is K01, what compiled expressions compute is E01.
"""
import itertools
import os
import zlib

from .astmodel import Ast, Ty, shape
from .exprs import bi, const, des, fn, un
from ..containers import elems, make, node, seq
from ..engine import NULL, VOID, State
from ..ir import AnalysisBroken
from ..registry import check
from ..streams import Streams, content, start

I4, I8, F4, F8, B, S5 = Ty.int(4, 1), Ty.int(8, 1), Ty.float(32, 1), Ty.float(64, 1), Ty.boolean(1), Ty.char(5, 0, 1)
TUS = ('src/backend/Interpreter.cpp', 'src/catalog/Type.cpp', 'src/IR/CNF.cpp', 'src/parse/AST.cpp', 'src/catalog/Schema.cpp')
AGG = ('COUNT', 'SUM', 'AVG', 'MIN', 'MAX')


def kind(ty):
    if ty[0] == 'Boolean':
        return 'b'
    if ty[0] == 'CharacterSequence':
        return 'p'
    if ty[0] == 'Numeric' and ty[2] == 'N_Float':
        return 'f' if ty[3] == 32 else 'd'
    return 'i'


def typeof(t):
    return t[3] if t[0] == 'des' else t[-1]


def schema_of(p):
    """Entries [(prefix, name, type)] of the rows a plan yields."""
    k = p[0]
    if k == 'scan':
        return [(p[1], a, ty) for a, ty in p[2]]
    if k in ('filter', 'dfilter', 'limit', 'sort', 'cb', 'print', 'noop'):
        return schema_of(p[1])
    if k == 'join':
        es = [x for c in p[1] for x in schema_of(c)]
        return es if p[3] is None else [x for x in es if x[:2] in p[3]]
    if k == 'proj':
        return [(None if al else t[1] if t[0] == 'des' else None, al or (t[2] if t[0] == 'des' else shape(t)), typeof(t)) for t, al in p[2]]
    if k == 'group':
        return [(None if al else t[1] if t[0] == 'des' else None, al or (t[2] if t[0] == 'des' else shape(t)), typeof(t)) for t, al in p[2]] + [(None, shape(a), typeof(a)) for a in p[3]]
    if k == 'agg':
        return [(None, shape(a), typeof(a)) for a in p[2]]
    raise AssertionError(k)


# ---- reference semantics: rows are dictionaries (prefix, name) -> value or None
def look(row, prefix, name):
    if (prefix, name) in row:
        return row[prefix, name]
    c = [v for (p, n), v in row.items() if n == name and (prefix is None or p is None)]
    if len(c) != 1:
        raise KeyError((prefix, name))
    return c[0]


def ev(t, row):
    k = t[0]
    if k == 'des':
        return look(row, t[1], t[2])
    if k == 'const':
        return {'TK_Null': None, 'TK_True': True, 'TK_False': False}[t[1]] if t[1] in ('TK_Null', 'TK_True', 'TK_False') else float(t[2]) if '.' in t[2] else int(t[2])
    if k == 'fn':
        return look(row, None, shape(t))
    if k == 'un':
        v = ev(t[3], row)
        return None if v is None else not v if t[2] == 'NOT' else -v
    a, b = ev(t[3], row), ev(t[4], row)
    op = t[2]
    if op in ('AND', 'OR'):
        if op == 'AND':
            return False if a is False or b is False else None if a is None or b is None else True
        return True if a is True or b is True else None if a is None or b is None else False
    if a is None or b is None:
        return None
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '=': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()


def ev3(vals, conj):
    if conj:
        return False if any(v is False for v in vals) else None if any(v is None for v in vals) else True
    return True if any(v is True for v in vals) else None if any(v is None for v in vals) else False


def evcnf(cnf, row):
    """cnf: list of clauses, clause: list of (negative, tree)"""
    def lit(n, t):
        v = ev(t, row)
        return v if not n or v is None else not v
    return ev3([ev3([lit(n, t) for n, t in c], False) for c in cnf], True)


def aggregate(a, rows):
    f, args = a[3], a[2]
    if f == 'COUNT' and not args:
        return len(rows)
    vs = [v for v in (ev(args[0], r) for r in rows) if v is not None]
    if f == 'COUNT':
        return len(vs)
    if f in ('MIN', 'MAX'):
        return (min if f == 'MIN' else max)(vs) if vs else None
    if not vs:
        return ('any', 0, None)
    return sum(vs) if f == 'SUM' else sum(vs) / len(vs)


def ref(p, data):
    """Rows of the plan in some order: (rows, limited) with limited = (n, rows below) if only n of the rows below are wanted."""
    k = p[0]
    if k == 'scan':
        return [{(p[1], a): r[a] for a, _ in p[2]} for r in data[p[3]]]
    if k in ('cb', 'print', 'noop'):
        return ref(p[1], data)
    if k == 'filter':
        return [r for r in ref(p[1], data) if evcnf(p[2], r) is True]
    if k == 'dfilter':
        return [r for r in ref(p[1], data) if evcnf([p[2]], r) is True]
    if k == 'join':
        out = []
        for rs in itertools.product(*[ref(c, data) for c in p[1]]):
            r = {}
            for x in rs:
                r.update(x)
            if evcnf(p[2], r) is True:
                out.append(r if p[3] is None else {i: v for i, v in r.items() if i in p[3]})
        return out
    if k == 'proj':
        es = schema_of(p)
        return [{e[:2]: ev(t, r) for e, (t, _) in zip(es, p[2])} for r in (ref(p[1], data) if p[1] else [{}])]
    if k == 'limit':
        return ref(p[1], data)[p[3]:p[3] + p[2]]
    if k == 'group':
        es = schema_of(p)
        groups = {}
        for r in ref(p[1], data):
            groups.setdefault(tuple(ev(t, r) for t, _ in p[2]), []).append(r)
        return [{e[:2]: v for e, v in zip(es, list(key) + [aggregate(a, rs) for a in p[3]])} for key, rs in groups.items()]
    if k == 'agg':
        rs = ref(p[1], data)
        return [{e[:2]: aggregate(a, rs) for e, a in zip(schema_of(p), p[2])}]
    if k == 'sort':
        rs = ref(p[1], data)
        for t, asc in reversed(p[2]):
            nul = [r for r in rs if ev(t, r) is None]
            oth = sorted((r for r in rs if ev(t, r) is not None), key=lambda r: ev(t, r), reverse=not asc)
            rs = nul + oth
        return rs
    raise AssertionError(k)


def same(g, w):
    if isinstance(w, tuple) and w[:1] == ('any',):
        return any(same(g, x) for x in w[1:])
    if g is None or w is None:
        return g is None and w is None
    if isinstance(w, bool) or isinstance(g, bool):
        return g in (0, 1) and bool(g) == bool(w)
    if isinstance(w, str) or isinstance(g, str):
        return g == w
    return abs(g - w) <= 1e-9 * max(1, abs(w))


# ---- the model
class Interp(Ast):
    def __init__(self, c, pid='I01', tus=TUS):
        super().__init__(c, pid, tus)
        P, E, M = self.P, self.E, self.E.models
        self.S = Streams(self)
        E.WIDEN = None
        E.fresh_new = True
        E.gc = lambda st: st          # operators under construction are reachable from nothing but their constructor
        E.value_classes_exact = set(E.value_classes_exact) | {'m::Value'}
        E.obj_std = set(E.obj_std) | {'std::_Node_handle'}
        M['m::Catalog::pool'] = lambda E, e, st, fr: self.K.val(e['args'][0], st, fr)
        M['m::Catalog::get_pool'] = lambda E, e, st, fr: [(('lref', ('root', 'pool')), st)]
        M['m::Catalog::Get'] = lambda E, e, st, fr: [(('lref', ('root', 'catalog')), st)]
        M['m::Options::Get'] = lambda E, e, st, fr: [(('lref', ('root', 'options')), st)]
        # values
        V = 'm::Value'
        M['ctorval:' + V] = self.value
        for k in 'bifdp':
            M[V + '::as_' + k] = self.as_(k)
        M[V + '::as'] = self.as_any
        M[V + '::operator=='] = lambda E, e, st, fr: self.vcmp(e, st, fr, 0)
        M[V + '::operator!='] = lambda E, e, st, fr: self.vcmp(e, st, fr, 1)
        M[V + '::operator='] = self.vassign
        # tuples
        T = 'm::Tuple'
        M['ctor:' + T] = self.tuple
        M[T + '::clear'] = lambda E, e, st, fr: [(VOID, self.tput(s, l, tuple((1,) + x[1:] for x in self.tget(s, l))) if l + ('__t',) in s.mem else s) for l, s in E.obj_loc(e, st, fr)]
        M[T + '::null'] = lambda E, e, st, fr: self.tset(e, st, fr, lambda x, a: (1,) + x[1:])
        M[T + '::not_null'] = lambda E, e, st, fr: self.tset(e, st, fr, lambda x, a: (0,) + x[1:])
        M[T + '::set'] = lambda E, e, st, fr: self.tset(e, st, fr, lambda x, a: (int(bool(a[1])) if len(a) > 1 else 0, a[0][1], a[0][2]))
        M[T + '::is_null'] = self.is_null
        M[T + '::operator[]'] = self.tsub
        M[T + '::get'] = self.tsub
        M[T + '::insert'] = self.tinsert
        M[T + '::operator='] = self.tswap
        M[T + '::clone'] = self.clone
        self.oldswap = M.get('std::swap')
        for q in ('m::swap', 'std::swap'):
            M[q] = self.swap
        # blocks
        rec = P.recs['m::Block']
        fs = [(f['n'], rec['types'][f['t']]['s']) for f in rec['fields']]
        self.farr = next(n for n, t in fs if 'array<' in t or 'Tuple[' in t or 'Tuple [' in t)
        self.fsch = next(n for n, t in fs if 'Schema' in t)
        M['ctor:m::Block'] = self.block
        self.old_elems = E.range_elems
        E.range_elems = self.range_elems
        M['std::array::operator[]'] = M['std::array::at'] = lambda E, e, st, fr: [(('lref', l + (('i', i),)), s2) for l, s in E.obj_loc(e, st, fr) for i, s2 in self.K.val(e['args'][0], s, fr)]
        # stack machines
        S = 'm::StackMachine'
        M['ctor:' + S] = self.sm
        E.model_pred.insert(0, (lambda q, e: q.startswith(S + '::emit') or q in (S + '::add', S + '::add_and_emit_load'), self.emit))
        M[S + '::operator()'] = self.exec
        M['m::Interpreter::compile_load'] = self.compile_load
        M['std::vector::data'] = lambda E, e, st, fr: [(('p', elems(s, l)[0]) if seq(s, l) else NULL, s) for l, s in E.obj_loc(e, st, fr)]
        M['std::optional::emplace'] = self.opt_emplace
        M['std::optional::reset'] = lambda E, e, st, fr: [(VOID, s.set(l, ('none',))) for l, s in E.lv(e['obj'], st, fr)]
        M['strlen'] = M['std::strlen'] = self.strlen
        # stores and tables
        M['m::Store::num_rows'] = lambda E, e, st, fr: [(s.mem[l + ('__rows',)], s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Store::table'] = lambda E, e, st, fr: [(('lref', s.mem[l + ('__table',)]), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Store::memory'] = lambda E, e, st, fr: [(('lref', l + ('memory',)), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::memory::Memory::addr'] = lambda E, e, st, fr: [(('p', l + ('addr',)), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Table::layout'] = lambda E, e, st, fr: [(('lref', l + ('layout',)), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::Table::schema'] = self.tschema
        # operators
        E.model_pred.insert(0, (lambda q, e: q.endswith('::accept'), self.accept))
        self.oldfun = M.get('std::function::operator()')
        M['std::function::operator()'] = self.callback
        # hash tables
        H = 'm::RefCountingHashMap'
        M['ctor:' + H] = lambda E, e, loc, st, fr: [(VOID, make(E.kill_prefix(loc, s), loc).set(loc + ('__alive',), 1)) for s in E.ev_list_states(e['args'], st, fr)]
        M[H + '::insert_with_duplicates'] = self.hinsert
        M[H + '::insert_without_duplicates'] = lambda E, e, st, fr: self.hinsert(E, e, st, fr, True)
        M[H + '::for_all'] = self.hforall
        M['std::hash::operator()'] = self.vhash
        M[H + '::size'] = lambda E, e, st, fr: [(len(seq(s, l)), s) for l, s in E.obj_loc(e, st, fr)]
        M[H + '::resize'] = lambda E, e, st, fr: [(VOID, s) for s in E.ev_list_states(e['args'], st, fr)]
        self.kfind = self.K.find
        self.K.find = self.find
        old = M.get('ctor:std::unordered_map')
        M['ctor:std::unordered_map'] = lambda E, e, loc, st, fr: self.mapctor(E, e, loc, st, fr, old)
        M['std::unordered_map::extract'] = self.extract
        M['std::_Node_handle::key'] = self.nodekey
        M['std::_Node_handle_common::~_Node_handle_common'] = lambda E, e, st, fr: [(VOID, st)]
        for n in ('sort', 'stable_sort'):
            M['std::' + n] = self.sort
        self.ops = {}
        for q in ('m::Pipeline::operator()', 'm::Interpreter::operator()'):
            for f in P.by_q.get(q, ()):
                t = f.types[f.params[0]['t']]
                if f.body is not None:
                    self.ops[q.rsplit('::', 1)[0], (t.get('rec') or t['s']).replace('const ', '').rstrip(' &')] = f
        if len(self.ops) < 24:
            raise AnalysisBroken('anchor vanished: the visitors of the interpreter (%d)' % len(self.ops))
        self.flit = P.recs['m::cnf::Predicate']['fields'][0]['n']
        self.fent = next(f['n'] for f in P.recs['m::Schema']['fields'] if 'vector' in P.recs['m::Schema']['types'][f['t']]['s'])
        self.trees = {}
        self.memo = {}
        self.ticks = 0

    # ---- values: ('value', kind, payload) or, in a tuple at L, (null, kind, payload) of L+('__t',); L+('val', i, '#v') holds the payload while it is referred to
    def value(self, E, e, st, fr):
        out = []
        a = e['args']
        if not a:
            return [(('value', None, 0), st)]
        t = fr.fn.ty(a[0]) or {}
        if t.get('rec') == 'm::Value' and not t.get('ptr'):
            return [(self.vload(s, l, e, fr), s) for l, s in self.vlocs(a[0], st, fr)]
        for v, s in self.K.val(a[0], st, fr):
            if isinstance(v, tuple) and v[:1] == ('value',):
                out.append((v, s))
                continue
            k = 'b' if t.get('bt') == 'bool' else ('f' if t.get('w') == 32 else 'd') if t.get('bt') == 'float' else 'p' if t.get('ptr') or (t.get('rec') or '').startswith('m::Pooled') else 'i'
            out.append((('value', k, v), s))
        return out

    def vlocs(self, a, st, fr):
        """[(location | value, st)] of an expression of class Value"""
        if a['k'] in ('ref', 'mem', 'idx', 'un', 'call'):
            try:
                return self.E.lv(a, st, fr)
            except AnalysisBroken:
                pass
        return [(('imm', v), s) for v, s in self.E.ev(a, st, fr)]

    def vload(self, s, l, e, fr):
        if l[:1] == ('imm',):
            return l[1]
        if len(l) > 2 and l[-2] == 'val':
            x = self.tget(s, l[:-2])[l[-1]]
            return ('value', x[1], x[2])
        v = s.mem.get(l)
        if isinstance(v, tuple) and v[:1] == ('value',):
            return v
        raise AnalysisBroken('%s: unknown value' % fr.fn.loc(e))

    def as_(self, k):
        def h(E, e, st, fr):
            out = []
            for l, s in self.vlocs(e['obj'], st, fr):
                v = self.vload(s, l, e, fr)
                if v[1] not in (None, k):
                    self.viol('kind', 'reads a value of kind %s as %s' % (v[1], k), e, fr)
                if l[:1] == ('imm',) or l[-2:-1] != ('val',):
                    out.append((v[2], s))
                    continue
                T, i = l[:-2], l[-1]
                x = self.tget(s, T)
                if x[i][1] is None:
                    s = self.tput(s, T, x[:i] + ((x[i][0], k, x[i][2]),) + x[i + 1:])
                out.append((('lref', l + ('#v',)), s if l + ('#v',) in s.mem else s.set(l + ('#v',), x[i][2])))
            return out
        return h

    def as_any(self, E, e, st, fr):
        t = fr.fn.ty(e) or {}
        k = 'p' if t.get('ptr') else ('f' if t.get('w') == 32 else 'd') if t.get('bt') == 'float' else 'b' if t.get('bt') == 'bool' else 'i'
        return self.as_(k)(E, e, st, fr)

    def vcmp(self, e, st, fr, neg):
        ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
        out = []
        for a, s in self.vlocs(ops[0], st, fr):
            for b, s2 in self.vlocs(ops[1], s, fr):
                x, y = self.vload(s2, a, e, fr), self.vload(s2, b, e, fr)
                if x[1] is not None and y[1] is not None and x[1] != y[1]:
                    self.viol('kind', 'compares values of kinds %s and %s' % (x[1], y[1]), e, fr)
                out.append((int((x[2] == y[2]) != bool(neg)), s2))
        return out

    def vassign(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            for a, s2 in self.vlocs(e['args'][0], s, fr):
                v = self.vload(s2, a, e, fr)
                if l[-2:-1] == ('val',):
                    x = self.tget(s2, l[:-2])
                    s2 = self.tput(s2, l[:-2], x[:l[-1]] + ((x[l[-1]][0], v[1], v[2]),) + x[l[-1] + 1:])
                else:
                    s2 = s2.set(l, v)
                out.append((('lref', l), s2))
        return out

    # ---- tuples
    def tget(self, s, l):
        t = s.mem.get(l + ('__t',))
        if t is None:
            n = s.mem.get(l[:-1] + ('__n',)) if isinstance(l[-1], tuple) and l[-1][0] == 'i' else None
            if n is None:
                raise AnalysisBroken('unknown tuple at %s' % (l,))
            t = ((1, None, 0),) * n
        g = s.mem
        for i in range(len(t)):
            v = g.get(l + ('val', i, '#v'), self)
            if v is not self and v != t[i][2]:
                t = t[:i] + ((t[i][0], t[i][1], v),) + t[i + 1:]
        return t

    def istuple(self, s, l):
        return l + ('__t',) in s.mem or isinstance(l[-1], tuple) and l[-1][0] == 'i' and l[:-1] + ('__n',) in s.mem

    def tput(self, s, l, t):
        s = s.copy()
        s.mem[l + ('__t',)] = t
        for i in range(len(t)):
            k = l + ('val', i, '#v')
            if k in s.mem:
                s.mem[k] = t[i][2]
        return s

    def tnew(self, st, loc, n):
        st = self.E.kill_prefix(loc, st)
        return st.set(loc + ('__t',), ((1, None, 0),) * n)

    def tuple(self, E, e, loc, st, fr):
        a = e['args']
        if not a:
            return [(VOID, self.tnew(st, loc, 0))]
        t = fr.fn.ty(a[0]) or {}
        out = []
        if t.get('rec') == 'm::Tuple' and not t.get('ptr'):
            for l, s in E.lv(a[0], st, fr):
                x = self.tget(s, l)
                s = self.tnew(s, loc, 0).set(loc + ('__t',), x)
                out.append((VOID, s if l == loc else self.tnew(s, l, 0)))
            return out
        if t.get('rec') == 'm::Schema':
            return [(VOID, self.tnew(s, loc, len(self.entries(s, l)))) for l, s in E.lv(a[0], st, fr)]
        tmp = loc + ('__types',)
        T = dict(t)
        T.pop('ref', None)
        for s in E.init_loc(tmp, T, a[0], st, fr):
            if seq(s, tmp) is None:
                raise AnalysisBroken('%s: a tuple of unknown types' % fr.fn.loc(e))
            n = len(seq(s, tmp))
            out.append((VOID, self.tnew(s, loc, n)))
        return out

    def index(self, i, s, l, e, fr, x):
        if not isinstance(i, int):
            raise AnalysisBroken('%s: unknown tuple index %s' % (fr.fn.loc(e), i))
        if not 0 <= i < len(x):
            self.viol('bounds', 'accesses value %d of a tuple of %d' % (i, len(x)), e, fr)
            return False
        return True

    def tset(self, e, st, fr, upd):
        out = []
        for l, s in self.E.obj_loc(e, st, fr):
            for i, s in self.K.val(e['args'][0], s, fr):
                vals = [((), s)]
                for a in e['args'][1:]:
                    vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.argval(a, s2, fr)]
                for a, s2 in vals:
                    x = self.tget(s2, l)
                    if self.index(i, s2, l, e, fr, x):
                        s2 = self.tput(s2, l, x[:i] + (upd(x[i], a),) + x[i + 1:])
                    out.append((VOID, s2))
        return out

    def argval(self, a, s, fr):
        t = fr.fn.ty(a) or {}
        if t.get('rec') == 'm::Value' and not t.get('ptr'):
            return [(self.vload(s2, l, a, fr), s2) for l, s2 in self.vlocs(a, s, fr)]
        return self.K.val(a, s, fr)

    def is_null(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for i, s in self.K.val(e['args'][0], s, fr):
                x = self.tget(s, l)
                out.append((x[i][0] if self.index(i, s, l, e, fr, x) else 1, s))
        return out

    def tsub(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for i, s in self.K.val(e['args'][0], s, fr):
                x = self.tget(s, l)
                if self.index(i, s, l, e, fr, x):
                    if e['n'] == 'get' and x[i][0]:
                        self.viol('null value', 'reads the value of a NULL', e, fr)
                    out.append((('lref', l + ('val', i)), s))
        return out

    def tinsert(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for o, s in E.lv(e['args'][0], s, fr):
                for p, s in self.K.val(e['args'][1], s, fr):
                    for n, s in self.K.val(e['args'][2], s, fr):
                        x, y = self.tget(s, l), self.tget(s, o)
                        if n and self.index(p + n - 1, s, l, e, fr, x) and self.index(n - 1, s, o, e, fr, y):
                            s = self.tput(s, l, x[:p] + y[:n] + x[p + n:])
                        out.append((VOID, s))
        return out

    def exchange(self, s, a, b):
        x, y = self.tget(s, a), self.tget(s, b)
        s = s.copy()
        for l in (a, b):
            for k in [k for k in s.mem if k[:len(l)] == l and k[-1:] == ('#v',)]:
                del s.mem[k]
        s.mem[a + ('__t',)], s.mem[b + ('__t',)] = y, x
        return s

    def tswap(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            for o, s in E.lv(e['args'][0], s, fr):
                out.append((('lref', l), self.exchange(s, l, o) if l != o else s))
        return out

    def swap(self, E, e, st, fr):
        t = fr.fn.ty(e['args'][0]) or {}
        if t.get('rec') != 'm::Tuple' or t.get('ptr'):
            return self.oldswap(E, e, st, fr) if self.oldswap and e['q'] == 'std::swap' else None
        return [(VOID, self.exchange(s2, a, b)) for a, s in E.lv(e['args'][0], st, fr) for b, s2 in E.lv(e['args'][1], s, fr)]

    def clone(self, E, e, st, fr):
        out = []
        loc = ('t', fr.depth, E.site(e, fr))
        for l, s in E.obj_loc(e, st, fr):
            for x, s in E.lv(e['args'][0], s, fr):
                t = self.tget(s, l)
                n = len(self.entries(s, x))
                if n > len(t):
                    self.viol('bounds', 'clones %d values of a tuple of %d' % (n, len(t)), e, fr)
                t = (t + ((1, None, 0),) * n)[:n]
                out.append((('obj', loc), E.kill_prefix(loc, s).set(loc + ('__t',), tuple(y if not y[0] else (1, None, 0) for y in t))))
        return out

    def block(self, E, e, loc, st, fr):
        """A block is made without writing its tuples: those that were never written have the width of the schema and are NULL."""
        out = []
        a = e['args']
        if not a:
            return [(VOID, self.schema(E.kill_prefix(loc, st), loc + (self.fsch,), ()).set(loc + (self.farr, '__n'), 0).set(loc + ('mask_',), 0).set(loc + ('__alive',), 1))]
        T = dict(fr.fn.ty(a[0]) or {})
        T.pop('ref', None)
        for s in E.init_loc(loc + (self.fsch,), T, a[0], E.kill_prefix(loc, st), fr):
            n = len(self.entries(s, loc + (self.fsch,)))
            out.append((VOID, s.set(loc + (self.farr, '__n'), n).set(loc + ('mask_',), 0).set(loc + ('__alive',), 1)))
        return out

    def range_elems(self, n, rl, s, fr):
        if rl is not None and rl + ('__n',) in s.mem:
            return [rl + (('i', k),) for k in range(64)]
        return self.old_elems(n, rl, s, fr) if self.old_elems else None

    # ---- schemas
    def entries(self, s, l):
        """[(prefix, name, type key)] of the schema at l"""
        L = l + (self.fent,)
        if seq(s, L) is None:
            raise AnalysisBroken('the entries of the schema at %s are unknown' % (l,))
        out = []
        nm = lambda v: v[1] if isinstance(v, tuple) and v[0] == 'str' else None
        for x in elems(s, L):
            t = s.mem.get(x + ('type',))
            out.append((nm(s.mem.get(x + ('id', 'prefix'))), nm(s.mem.get(x + ('id', 'name'))), self.tkey(s, t[1]) if isinstance(t, tuple) and t[0] == 'p' else None))
        return tuple(out)

    def schema(self, st, l, es):
        L = l + (self.fent,)
        st = make(st, L, range(len(es))).set(l + ('__alive',), 1)
        for i, (p, n, ty) in enumerate(es):
            x = node(L, i)
            v, st = self.ty(st, ty)
            st = st.set(x + ('id', 'prefix'), NULL if p is None else ('str', p)).set(x + ('id', 'name'), ('str', n)).set(x + ('type',), v).set(x + ('constraints',), 0).set(x + ('__alive',), 1)
        return st

    def tschema(self, E, e, st, fr):
        out = []
        loc = ('t', fr.depth, E.site(e, fr))
        for l, s in E.obj_loc(e, st, fr):
            al = [(NULL, s)]
            if e['args'] and e['args'][0].get('k') != 'defarg':
                al = self.K.val(e['args'][0], s, fr)
            for a, s2 in al:
                a = s2.mem.get(l + ('__name',)) if a == NULL else a
                s2 = E.kill_prefix(loc, s2)
                out.append((('obj', loc), self.schema(s2, loc, [(a[1], n, ty) for n, ty in s2.mem[l + ('__attrs',)]])))
        return out

    # ---- stack machines
    def sm(self, E, e, loc, st, fr):
        a = e['args']
        t = (fr.fn.ty(a[0]) or {}) if a else {}
        if t.get('rec') == 'm::StackMachine':
            return [(VOID, E.copy_obj(l, loc, E.kill_prefix(loc, s))) for l, s in E.lv(a[0], st, fr)]
        out = []
        for l, s in (E.lv(a[0], st, fr) if a else [(None, st)]):
            es = self.entries(s, l) if l is not None else ()
            s = E.kill_prefix(loc, s).set(loc + ('__prog',), ()).set(loc + ('__in',), es).set(loc + ('__ctx',), ()).set(loc + ('__alive',), 1)
            if len(a) > 1:
                raise AnalysisBroken('%s: a stack machine made from an expression' % fr.fn.loc(e))
            out.append((VOID, s))
        return out

    def opt_emplace(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            x = l + ('__val',)
            if 'StackMachine' not in (fr.fn.ty(e['obj']) or {}).get('s', ''):
                return None
            out += [(('lref', x), s2.set(l, ('some', ('obj', x)))) for _, s2 in self.sm(E, e, x, s, fr)]
        return out

    def emit(self, E, e, st, fr):
        op = e['q'].split('::')[-1]
        out = []
        for l, s in E.obj_loc(e, st, fr):
            vals = [((), s)]
            for n, a in enumerate(e['args']):
                t = fr.fn.ty(a) or {}
                if t.get('rec') == 'm::Value' and not t.get('ptr'):
                    vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.argval(a, s2, fr)]
                elif op == 'emit' and n == 0 or t.get('rec') and not t.get('ptr') and not t.get('enum'):
                    vals = [(p + (x,), s3) for p, s2 in vals for x, s3 in E.lv(a, s2, fr)]
                else:
                    vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.K.val(a, s2, fr)]
            for a, s2 in vals:
                if not isinstance(s2.mem.get(l + ('__prog',)), tuple):
                    raise AnalysisBroken('%s: unknown program %s %s' % (fr.fn.loc(e), l, [k for k in s2.mem if k[0]=='h']))
                r = VOID
                ins = None
                if op == 'add' or op == 'add_and_emit_load':
                    c = s2.mem[l + ('__ctx',)]
                    v = a[0] if isinstance(a[0], tuple) and a[0][:1] == ('value',) else ('value', 'p' if isinstance(a[0], tuple) else 'i', a[0])
                    s2 = s2.set(l + ('__ctx',), c + (v,))
                    r = len(c)
                    ins = ('emit_Ld_Ctx', len(c)) if op == 'add_and_emit_load' else None
                elif op == 'emit':
                    ins = self.emit_expr(l, e, a, s2, fr)
                elif op in ('emit_St_Tup', 'emit_Print', 'emit_Cast'):
                    ins = (op,) + tuple(kind(self.tkey(s2, x[1])) if isinstance(x, tuple) and x[:1] == ('p',) else x for x in a)
                else:
                    ins = (op,) + a
                if ins:
                    s2 = s2.set(l + ('__prog',), s2.mem[l + ('__prog',)] + (ins,))
                out.append((r, s2))
        return out

    def emit_expr(self, l, e, a, s, fr):
        """emit(expr|cnf[, tuple_id]), emit(expr, schema, tuple_id), emit(expr|cnf, schemas, tuple_ids)"""
        t = fr.fn.ty(e['args'][0]) or {}
        what = ('cnf', self.readcnf(s, a[0])) if seq(s, a[0]) is not None else ('tree', self.tree_at(a[0], s, e, fr))
        if len(a) < 2 or isinstance(a[1], int):
            env = ((s.mem[l + ('__in',)], a[1] if len(a) > 1 else 0),)
        elif seq(s, a[1]) is not None:
            ids = [s.mem.get(x) for x in elems(s, a[2])]
            env = tuple((self.entries(s, x), i) for x, i in zip(elems(s, a[1]), ids))
        else:
            env = ((self.entries(s, a[1]), a[2] if len(a) > 2 else 0),)
        return ('expr', what, env)

    def tree_at(self, l, s, e, fr):
        if l not in self.trees:
            raise AnalysisBroken('%s: unknown expression at %s' % (fr.fn.loc(e), l))
        return l

    def readcnf(self, s, L):
        out = []
        for c in elems(s, L):
            cl = []
            for p in elems(s, c):
                v = s.mem.get(p + (self.flit,))
                cl.append((int(v[0] == 'tp'), v[1]))
            out.append(tuple(cl))
        return tuple(out)

    def exec(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for args, s2 in self.K.val(e['args'][0], s, fr):
                out.append((VOID, self.exec_prog(l, args, s2, e, fr)))
        return out

    def arg(self, args, k, s, e, fr):
        """Location of the k-th tuple argument."""
        if isinstance(args, tuple) and args[:1] in (('p',), ('obj',), ('lref',)):
            l = args[1]
            cands = [l + (('i', k),)]
            if isinstance(l[-1], tuple) and l[-1][0] in ('i',):
                cands.append(l[:-1] + (('i', l[-1][1] + k),))
            if isinstance(l[-1], tuple) and l[-1][0] == 'n' and seq(s, l[:-1]) is not None:
                ids = seq(s, l[:-1])
                p = ids.index(l[-1][1]) + k
                if p < len(ids):
                    cands.append(node(l[:-1], ids[p]))
            if seq(s, l) is not None and k < len(seq(s, l)):
                cands.append(elems(s, l)[k])
            for c in cands:
                v = s.mem.get(c)
                if isinstance(v, tuple) and v[:1] == ('p',) and self.istuple(s, v[1]):
                    return v[1]
                if v == NULL:
                    self.viol('null tuple', 'passes no tuple %d to a program that accesses it' % k, e, fr)
                    return None
        raise AnalysisBroken('%s: unknown tuple argument %s of %s' % (fr.fn.loc(e), k, args))

    def exec_prog(self, l, args, s, e, fr):
        ld = s.mem.get(l + ('__loader',))
        if ld is not None:
            tab, cols, row, tid = ld
            rows = s.mem[tab + ('__data',)]
            T = self.arg(args, tid, s, e, fr)
            if T is None:
                return s
            if row >= len(rows):
                self.viol('load', 'loads a row behind the end of the table', e, fr)
                return s
            x = list(self.tget(s, T))
            for i, (c, k) in enumerate(cols):
                if c is not None and i < len(x):
                    v = rows[row][c]
                    x[i] = (1, k, junk(k, row + i)) if v is None else (0, k, v)
            return self.tput(s, T, tuple(x)).set(l + ('__loader',), (tab, cols, row + 1, tid))
        stack = []
        ctx = s.mem[l + ('__ctx',)]
        skip = None
        for ins in s.mem[l + ('__prog',)]:
            op, a = ins[0], ins[1:]
            if op == 'expr':
                stack.append(self.eval(a[0], a[1], args, s, e, fr))
            elif op == 'emit_Ld_Tup':
                T = self.arg(args, a[0], s, e, fr)
                x = self.tget(s, T) if T is not None else ()
                stack.append(x[a[1]] if self.index(a[1], s, T, e, fr, x) else (1, None, 0))
            elif op.startswith('emit_St_Tup'):
                T = self.arg(args, a[0], s, e, fr)
                x = self.tget(s, T) if T is not None else ()
                if self.index(a[1], s, T, e, fr, x):
                    if op == 'emit_St_Tup_Null':
                        y = (1,) + x[a[1]][1:]
                    else:
                        v = stack[-1] if stack else (1, None, 0)
                        if not stack:
                            self.viol('stack', 'stores from an empty stack', e, fr)
                        want = a[2] if op == 'emit_St_Tup' else op[-1] if op[-1] in 'bifd' else None
                        if want and v[1] and not v[0] and want != v[1] and {want, v[1]} & set('bp'):
                            self.viol('kind', 'stores a value of kind %s as %s' % (v[1], want), e, fr)
                        y = (v[0], v[1], v[2] if not v[0] else junk(v[1] or {'b': 'b'}.get(op[-1], x[a[1]][1]), self.tick()))
                    s = self.tput(s, T, x[:a[1]] + (y,) + x[a[1] + 1:])
            elif op == 'emit_Ld_Ctx':
                v = ctx[a[0]]
                stack.append((0, v[1], v[2]))
            elif op == 'emit_Pop':
                stack.pop()
            elif op == 'emit_Push_Null':
                stack.append((1, None, 0))
            elif op == 'emit_Dup':
                stack.append(stack[-1])
            elif op == 'emit_Is_Null':
                v = stack.pop()
                stack.append((0, 'b', v[0]))
            elif op == 'emit_Not_b':
                v = stack.pop()
                stack.append((v[0], 'b', int(not v[2])))
            elif op.startswith('emit_Cmp_') or op.startswith(('emit_Eq_', 'emit_NE_', 'emit_LT_', 'emit_LE_', 'emit_GT_', 'emit_GE_')):
                b, x = stack.pop(), stack.pop()
                k = {'s': 'p'}.get(op[-1], op[-1])
                for v in (x, b):
                    if not v[0] and v[1] not in (None, k):
                        self.viol('kind', 'compares a value of kind %s with %s' % (v[1], op[5:]), e, fr)
                if x[0] or b[0]:
                    stack.append((1, 'i', 0))
                else:
                    c = (x[2] > b[2]) - (x[2] < b[2])
                    n = op.split('_')[1]
                    stack.append((0, 'i', c) if n == 'Cmp' else (0, 'b', int({'Eq': c == 0, 'NE': c != 0, 'LT': c < 0, 'LE': c <= 0, 'GT': c > 0, 'GE': c >= 0}[n])))
            elif op in ('emit_Minus_i', 'emit_Minus_f', 'emit_Minus_d'):
                v = stack.pop()
                stack.append((v[0], v[1], -v[2]))
            elif op.startswith(('emit_Add_', 'emit_Sub_', 'emit_Mul_')):
                b, x = stack.pop(), stack.pop()
                stack.append((x[0] | b[0], x[1], 0 if x[0] | b[0] else {'Add': x[2] + b[2], 'Sub': x[2] - b[2], 'Mul': x[2] * b[2]}[op.split('_')[1]]))
            elif op == 'emit_Sel':
                f, t, c = stack.pop(), stack.pop(), stack.pop()
                stack.append((1, None, 0) if c[0] else t if c[2] else f)
            elif op in ('emit_Stop_NZ', 'emit_Stop_Z'):
                if bool(stack[-1][2]) == (op == 'emit_Stop_NZ'):
                    return s
            elif op == 'emit_Cast':
                to, frm = a
                v = stack.pop()
                if v[1] not in (None, frm):
                    self.viol('kind', 'casts a value of kind %s as %s' % (v[1], frm), e, fr)
                if (to == 'p') != (frm == 'p'):
                    raise AnalysisBroken('%s: cast to or from characters' % fr.fn.loc(e))
                stack.append((v[0], to, float(v[2]) if to in 'fd' else int(v[2])) if to != frm else v)
            elif op == 'emit_Cast_i_b':
                v = stack.pop()
                stack.append((v[0], 'i', int(v[2])))
            elif op == 'emit_Print':
                o, k = a
                v = stack.pop()
                if ctx[o][2] != ('p', ('root', 'out')):
                    self.viol('stream', 'prints to another stream', e, fr)
                if not v[0] and v[1] not in (None, k):
                    self.viol('kind', 'prints a value of kind %s as %s' % (v[1], k), e, fr)
                s = self.S.write(s, ('root', 'out'), 'NULL' if v[0] else ('TRUE' if v[2] else 'FALSE') if v[1] == 'b' else '"%s"' % v[2] if v[1] == 'p' else repr(v[2]))
            elif op == 'emit_Putc':
                s = self.S.write(s, ('root', 'out'), chr(a[1]))
            else:
                raise AnalysisBroken('%s: instruction %s in a program of an operator' % (fr.fn.loc(e), op))
        return s

    def tick(self):
        self.ticks += 1
        return self.ticks % 5

    def eval(self, what, env, args, s, e, fr):
        rows = []
        for es, tid in env:
            T = self.arg(args, tid, s, e, fr)
            x = self.tget(s, T) if T is not None else ()
            if len(x) < len(es):
                es = es[:len(x)]
            rows.append((es, x))

        def lookup(p, n):
            c = [x[i] for es, x in rows for i, y in enumerate(es) if y[1] == n and (y[0] == p or p is None or y[0] is None)]
            exact = [x[i] for es, x in rows for i, y in enumerate(es) if y[:2] == (p, n)]
            c = exact or c
            if not c:
                self.viol('lookup', 'evaluates an expression over %s where this attribute is not available' % (n if p is None else p + '.' + n), e, fr)
                return (1, None, 0)
            return c[0]

        def go(t):
            if t[0] == 'des':
                return lookup(t[1], t[2])
            if t[0] == 'fn':
                return lookup(None, shape(t))
            if t[0] == 'const':
                v = ev(t, {})
                return (1, None, 0) if v is None else (0, kind(typeof(t)), int(v) if isinstance(v, bool) else v)
            k = kind(typeof(t))
            sub = [go(x) for x in (t[3:4] if t[0] == 'un' else t[3:5])]
            names = [str(i) for i in range(len(sub))]
            row = {(None, n): None if v[0] else bool(v[2]) if v[1] == 'b' else v[2] for n, v in zip(names, sub)}
            leaf = [('des', None, n, I4) for n in names]
            v = ev(t[:3] + tuple(leaf) + t[3 + len(sub):], row)
            return (1, k, junk(k, 2)) if v is None else (0, k, int(v) if isinstance(v, bool) else float(v) if k in 'fd' else v)
        if what[0] == 'tree':
            return go(self.trees[what[1]])

        def lit(n, t):
            v = go(self.trees[t])
            return None if v[0] else bool(v[2]) != bool(n)
        v = ev3([ev3([lit(n, t) for n, t in c], False) for c in what[1]], True)
        return (1, 'b', 1) if v is None else (0, 'b', int(v))

    def compile_load(self, E, e, st, fr):
        loc = ('t', fr.depth, E.site(e, fr))
        vals = [((), st)]
        for a in e['args']:
            t = fr.fn.ty(a) or {}
            if t.get('rec') and not t.get('ptr'):
                vals = [(p + (x,), s3) for p, s2 in vals for x, s3 in E.lv(a, s2, fr)]
            else:
                vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.K.val(a, s2, fr)]
        out = []
        for (ts, addr, lay, ls, *rest), s in vals:
            if not (isinstance(addr, tuple) and addr[:1] == ('p',) and addr[1][-2:] == ('memory', 'addr')):
                raise AnalysisBroken('%s: loads from an unknown address' % fr.fn.loc(e))
            tab = s.mem[addr[1][:-2] + ('__table',)]
            if lay != tab + ('layout',):
                self.viol('layout', 'reads with a data layout that is not the one of the table', e, fr)
            attrs = [a for a, _ in s.mem[tab + ('__attrs',)]]
            le = self.entries(s, ls)
            if [x[1] for x in le] != attrs:
                self.viol('lschema', 'reads with a schema that is not the one of the table', e, fr)
            cols = []
            for p, n, ty in self.entries(s, ts):
                c = [x for x in le if x[1] == n and x[0] == p]
                cols.append((n if c else None, kind(ty)))
            rest = [x for x in rest if isinstance(x, int)]
            row = rest[0] if rest else 0
            tid = rest[1] if len(rest) > 1 else 0
            s = E.kill_prefix(loc, s).set(loc + ('__loader',), (tab, tuple(cols), row, tid)).set(loc + ('__alive',), 1)
            out.append((('obj', loc), s.set(loc + ('__prog',), ()).set(loc + ('__ctx',), ()).set(loc + ('__in',), ())))
        return out

    def strlen(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            v = v[1][1] if isinstance(v, tuple) and v[:1] == ('s',) and v[1][:1] == ('text',) else v
            out.append((len(v[1]), s) if isinstance(v, tuple) and v[:1] == ('str',) else (('s', ('len', v)), s))
        return out

    # ---- operators
    def accept(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            c = s.mem.get(l + ('__cls',))
            for v, s2 in E.lv(e['args'][0], s, fr):
                k = s2.mem.get(v + ('__cls',))
                if c is None or k is None or (k[1], c[1]) not in self.ops:
                    if c is None or not c[1].startswith('m::') or not c[1].endswith('Operator'):
                        return None
                    raise AnalysisBroken('%s: no visitor of %s for %s' % (fr.fn.loc(e), k, c))
                out += E.call_fn(self.ops[k[1], c[1]], [('ref', l)], v, s2, e, fr)
        return out

    def callback(self, E, e, st, fr):
        f = e.get('obj') if e.get('obj') is not None else e.get('callee')
        old = lambda: self.oldfun(E, e, st, fr) if self.oldfun else None
        if f is None:
            return old()
        try:
            ls = E.lv(f, st, fr)
        except AnalysisBroken:
            return old()
        if not all(s.mem.get(l) == ('cb',) for l, s in ls):
            return old()
        out = []
        for l, s in ls:
            for a, s in E.lv(e['args'][0], s, fr):
                for t, s in E.lv(e['args'][1], s, fr):
                    out.append((VOID, self.event(s, ('row', self.entries(s, a), self.tget(s, t)))))
        return out

    # ---- hash tables
    def hinsert(self, E, e, st, fr, unique=False):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            ids = seq(s, l)
            i = len(ids)
            old = s
            s = make(s, l, ids + (i,))
            states = [s]
            for part, a in zip(('first', 'second'), e['args']):
                T = dict(fr.fn.ty(a) or {})
                T.pop('ref', None)
                states = [s3 for s2 in states for s3 in E.init_loc(node(l, i) + (part,), T, a, s2, fr)]
            key = lambda j: [x if not x[0] else (1,) for x in self.tget(states[0], node(l, j) + ('first',))]
            if unique and any(key(j) == key(i) for j in ids):
                out.append((('obj', ('t', fr.depth, E.site(e, fr))), old))
                continue
            out += [(('it', l, i), s2) for s2 in states]
        return out

    def hforall(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            for k, s in E.lv(e['args'][0], s, fr):
                key = [x if not x[0] else (1,) for x in self.tget(s, k)]
                for f, s in E.ev(e['args'][1], s, fr):
                    states = [s]
                    for x in elems(s, l):
                        ns = []
                        for s2 in states:
                            y = [z if not z[0] else (1,) for z in self.tget(s2, x + ('first',))]
                            if len(key) != len(y):
                                self.viol('key', 'looks up a key of %d values in a hash table with keys of %d values' % (len(key), len(y)), e, fr)
                            for a, b in zip(key, y):
                                if a[0] == b[0] == 0 and a[1] != b[1]:
                                    self.viol('kind', 'compares a key of kind %s with a key of kind %s' % (a[1], b[1]), e, fr)
                            ns += [s3 for _, s3 in E.call_value(f, e, s2, fr, [('ref', x)])] if key == y else [s2]
                        states = ns
                    out += [(VOID, s2) for s2 in states]
        return out

    def mapctor(self, E, e, loc, st, fr, old):
        a = [x for x in e['args'] if x.get('k') != 'defarg']
        if len(a) < 3:
            return old(E, e, loc, st, fr) if old else None
        states = E.ev_list_states(a[:1], st, fr)
        for part, x in (('__hash', a[1]), ('__eq', a[2])):
            T = dict(fr.fn.ty(x) or {})
            T.pop('ref', None)
            states = [s2 for s in states for s2 in E.init_loc(loc + (part,), T, x, s, fr)]
        eqc = (fr.fn.ty(a[2]) or {}).get('rec')
        hc = (fr.fn.ty(a[1]) or {}).get('rec')
        return [(VOID, make(s, loc).set(loc + ('__alive',), 1).set(loc + ('__eqc',), eqc).set(loc + ('__hashc',), hc)) for s in states]

    def find(self, L, k, st, mp, fr):
        c = st.mem.get(L + ('__eqc',))
        if not c:
            return self.kfind(L, k, st, mp, fr)
        kl = k[1] if isinstance(k, tuple) and k[:1] == ('obj',) else L + (('tmp', 'ins'), 'first') if mp else L + (('tmp', 'ins'),)
        f = self.P.one(c + '::operator()')
        key = self.tget(st, kl)
        cfg = tuple(sorted((x, v) for x, v in st.mem.items() if x[:len(L) + 1] == L + ('__eq',)))
        for i in seq(st, L):
            o = self.keyloc_(L, i, mp)
            m = (cfg, key, self.tget(st, o))
            if m not in self.memo:
                r = self.E.call_fn(f, [('ref', kl), ('ref', o)], L + ('__eq',), st, {'k': 'call', 'args': [], '_id': 0}, fr)
                vs = {v for v, _ in r}
                if len(vs) != 1 or not isinstance(next(iter(vs)), int):
                    raise AnalysisBroken('%s: unknown result %s' % (f.loc(), vs))
                self.memo[m] = next(iter(vs))
            if self.memo[m]:
                a, b = self.hash(L, kl, st, fr), self.hash(L, o, st, fr)
                if a != b:
                    self.viol('hash', 'gives two equal keys different hash values')
                    continue
                return [(i, st)]
        return [(None, st)]

    def hash(self, L, kl, st, fr):
        c = st.mem.get(L + ('__hashc',))
        if not c:
            return 0
        f = self.P.one(c + '::operator()')
        m = (c, tuple(sorted((x, v) for x, v in st.mem.items() if x[:len(L) + 1] == L + ('__hash',))), self.tget(st, kl))
        if m not in self.memo:
            r = self.E.call_fn(f, [('ref', kl)], L + ('__hash',), st, {'k': 'call', 'args': [], '_id': 0}, fr)
            vs = {v for v, _ in r}
            if len(vs) != 1:
                raise AnalysisBroken('%s: unknown result %s' % (f.loc(), vs))
            self.memo[m] = next(iter(vs))
        return self.memo[m]

    def vhash(self, E, e, st, fr):
        out = []
        for l, s in self.vlocs(e['args'][-1], st, fr):
            out.append((zlib.crc32(repr(self.vload(s, l, e, fr)[1:]).encode()), s))
        return out

    def keyloc_(self, L, i, mp):
        return node(L, i) + ('first',) if mp else node(L, i)

    def extract(self, E, e, st, fr):
        out = []
        loc = ('t', fr.depth, E.site(e, fr))
        for l, s in E.obj_loc(e, st, fr):
            for it, s in self.K.itval(e['args'][0], s, fr):
                if it[2] == 'end' or it[2] not in seq(s, l):
                    self.viol('extract', 'extracts a group that does not exist', e, fr)
                    continue
                t = self.tget(s, node(l, it[2]) + ('first',))
                s = E.kill_prefix(loc, s).set(loc + ('__key', '__t'), t).set(loc + ('__alive',), 1)
                s = E.kill_prefix(node(l, it[2]), s)
                out.append((('obj', loc), make(s, l, [i for i in seq(s, l) if i != it[2]])))
        return out

    def nodekey(self, E, e, st, fr):
        return [(('lref', l + ('__key',)), s) for l, s in E.obj_loc(e, st, fr)]

    def sort(self, E, e, st, fr):
        """A merge sort with the comparator of the call."""
        out = []
        for a, s in self.K.itval(e['args'][0], st, fr):
            for b, s in self.K.itval(e['args'][1], s, fr):
                for f, s in E.ev(e['args'][2], s, fr):
                    ids = list(seq(s, a[1]))
                    p, q = self.K.pos(s, a), self.K.pos(s, b)
                    box = [s]

                    def less(x, y):
                        r = E.call_value(f, e, box[0], fr, [('ref', node(a[1], x)), ('ref', node(a[1], y))])
                        if len(r) != 1 or not isinstance(r[0][0], int):
                            raise AnalysisBroken('%s: the comparator has no known result' % fr.fn.loc(e))
                        box[0] = r[0][1]
                        return r[0][0]

                    def msort(v):
                        if len(v) < 2:
                            return v
                        m = len(v) // 2
                        x, y = msort(v[:m]), msort(v[m:])
                        z = []
                        while x and y:
                            z.append(y.pop(0) if less(y[0], x[0]) else x.pop(0))
                        return z + x + y
                    r = msort(ids[p:q])
                    for x, y in zip(r, r[1:]):
                        if less(y, x):
                            self.viol('order', 'sorts with a comparator that is no ordering', e, fr)
                            break
                    for x in r[:1]:
                        if less(x, x):
                            self.viol('order', 'sorts with a comparator that is not irreflexive', e, fr)
                    s2 = box[0]
                    out.append((VOID, make(s2, a[1], ids[:p] + r + ids[q:])))
        return out

    # ---- plans
    def register(self, st, t):
        l, st = self.tree(st, t)
        self.trees[l] = t
        if t[0] == 'fn' and t[3] in AGG:
            pass
        return l, st

    def cnf(self, st, L, cs):
        st = make(st, L, range(len(cs))).set(L + ('__alive',), 1)
        for i, c in enumerate(cs):
            C = node(L, i)
            st = make(st, C, range(len(c))).set(C + ('__alive',), 1)
            for j, (n, t) in enumerate(c):
                l, st = self.register(st, t)
                st = st.set(node(C, j) + (self.flit,), ('tp', l, 1) if n else ('p', l)).set(node(C, j) + ('__alive',), 1)
        return st

    def build(self, st, p, data, parent, path=('op',)):
        """Builds the operators of plan p; returns its location."""
        loc = ('root',) + path
        k = p[0]
        cls = {'scan': 'Scan', 'filter': 'Filter', 'dfilter': 'DisjunctiveFilter', 'join': 'Join', 'proj': 'Projection', 'limit': 'Limit', 'group': 'Grouping', 'agg': 'Aggregation', 'sort': 'Sorting',
               'cb': 'Callback', 'print': 'Print', 'noop': 'NoOp'}[k]
        st = st.set(loc + ('__cls',), ('str', 'm::%sOperator' % cls)).set(loc + ('__alive',), 1)
        st = self.schema(st, loc + ('schema_',), schema_of(p))
        st = st.set(loc + ('data_',), NULL).set(loc + ('info_',), NULL).set(loc + ('id_',), 0)
        if k not in ('cb', 'print', 'noop'):
            st = st.set(loc + ('parent_',), ('p', parent) if parent else NULL)
        kids = [] if k == 'scan' else list(p[1]) if k == 'join' else [p[1]] if p[1] else []
        if k != 'scan':
            C = loc + ('children_',)
            st = make(st, C, range(len(kids)))
            for i, x in enumerate(kids):
                st = st.set(node(C, i), ('p', ('root',) + path + (i,)))
                st = self.build(st, x, data, loc, path + (i,))
        if k == 'scan':
            _, alias, attrs, tab = p
            T = ('root', 'table', tab)
            st = st.set(loc + ('store_', '__ref'), ('root', 'store', tab)).set(loc + ('alias_',), ('str', alias))
            st = st.set(('root', 'store', tab, '__table'), T).set(('root', 'store', tab, '__rows'), len(data[tab]))
            st = st.set(T + ('__attrs',), tuple(self.columns[tab])).set(T + ('__name',), ('str', tab)).set(T + ('__data',), Frozen(data[tab]))
        elif k == 'filter':
            st = self.cnf(st, loc + ('filter_',), p[2])
        elif k == 'dfilter':
            st = self.cnf(st, loc + ('filter_',), [p[2]])
        elif k == 'join':
            st = self.cnf(st, loc + ('predicate_',), p[2])
        elif k in ('proj', 'group'):
            L = loc + ('projections_' if k == 'proj' else 'group_by_',)
            st = make(st, L, range(len(p[2])))
            for i, (t, al) in enumerate(p[2]):
                l, st = self.register(st, t)
                st = st.set(node(L, i) + ('first',), ('p', l)).set(node(L, i) + ('second',), NULL if al is None else ('str', al))
        elif k == 'limit':
            st = st.set(loc + ('limit_',), p[2]).set(loc + ('offset_',), p[3])
        elif k == 'sort':
            L = loc + ('order_by_',)
            st = make(st, L, range(len(p[2])))
            for i, (t, asc) in enumerate(p[2]):
                l, st = self.register(st, t)
                st = st.set(node(L, i) + ('first',), ('p', l)).set(node(L, i) + ('second',), int(asc))
        elif k in ('print', 'noop'):
            st = st.set(loc + ('out', '__ref'), ('root', 'out'))
        elif k == 'cb':
            st = st.set(loc + ('callback_',), ('cb',))
        if k in ('group', 'agg'):
            A = p[3] if k == 'group' else p[2]
            L = loc + ('aggregates_',)
            st = make(st, L, range(len(A)))
            for i, t in enumerate(A):
                l, st = self.register(st, t)
                for j, x in enumerate(t[2]):
                    a = st.mem[node(l + ('args',), j)]
                    self.trees[a[1]] = x
                st = st.set(node(L, i), ('p', l))
        # sub-expressions that the operators look into
        return st

    def go(self, p, data, quiet=0):
        st = State().withmon(())
        self.n = 0
        self.trees.clear()
        st = self.build(st, p, data, None)
        for l, t in list(self.trees.items()):
            if t[0] == 'bin':
                for f, x in (('lhs', t[3]), ('rhs', t[4])):
                    v = st.mem[l + (f,)]
                    self.trees[v[1]] = x
        st = start(st).set(('root', 'options', 'quiet'), quiet)
        I = ('root', 'interpreter')
        st = st.set(I + ('__cls',), ('str', 'm::Interpreter')).set(I + ('__alive',), 1)
        root = ('root', 'op')
        f = self.ops['m::Interpreter', st.mem[root + ('__cls',)][1]]
        return self.run(f, st, I, [('ref', root)])


class Frozen(list):
    """Rows of a table (hashable by identity)."""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


# ---- scenarios
T_COLS = [('a', I4), ('b', I4), ('f', F8), ('g', F4), ('c', B), ('s', S5)]
U_COLS = [('a', I4), ('x', I4), ('y', F8)]
W_COLS = [('k', I8), ('x', I4)]


def junk(k, n):
    """What may be left in the place of the value of a NULL: nothing may depend on it."""
    return {'b': 1, 'i': 7000 + n, 'f': 7000.5 + n, 'd': 7000.5 + n, 'p': 'junk%d' % n}.get(k, 0)


def rows_t(n, nulls=True):
    out = []
    for i in range(n):
        r = {'a': i, 'b': (i * 7) % 5, 'f': i * 0.5, 'g': (i % 4) * 1.5, 'c': i % 3 == 0, 's': 'r%d' % (i % 7)}
        if nulls and i % 6 == 1:
            r['b'] = None
        if nulls and i % 6 == 2:
            r['f'] = r['g'] = None
        if nulls and i % 6 == 4:
            r['c'] = None
        if nulls and i % 6 == 5:
            r['s'] = None
        out.append(r)
    return out


def rows_u(n, nulls=True):
    return [{'a': None if nulls and i % 5 == 3 else i // 2, 'x': i, 'y': i * 0.25} for i in range(n)]


def rows_w(n):
    return [{'k': None if i == 1 else i % 2, 'x': 10 + i} for i in range(n)]


def describe(p):
    k = p[0]
    if k == 'scan':
        return p[1]
    if k == 'join':
        return 'join[%s](%s)' % (cnftext(p[2]), ', '.join(describe(c) for c in p[1]))
    if k in ('filter', 'dfilter'):
        return '%s[%s](%s)' % (k, cnftext(p[2] if k == 'filter' else [p[2]]), describe(p[1]))
    if k == 'proj':
        return 'project[%s](%s)' % (', '.join(shape(t) + (' AS ' + a if a else '') for t, a in p[2]), describe(p[1]) if p[1] else '')
    if k == 'limit':
        return 'limit[%d, %d](%s)' % (p[2], p[3], describe(p[1]))
    if k == 'group':
        return 'group[%s; %s](%s)' % (', '.join(shape(t) for t, _ in p[2]), ', '.join(map(shape, p[3])), describe(p[1]))
    if k == 'agg':
        return 'aggregate[%s](%s)' % (', '.join(map(shape, p[2])), describe(p[1]))
    if k == 'sort':
        return 'sort[%s](%s)' % (', '.join(shape(t) + ('' if a else ' DESC') for t, a in p[2]), describe(p[1]))
    return '%s(%s)' % (k, describe(p[1]))


def cnftext(cs):
    return ' AND '.join('(' + ' OR '.join(('NOT ' if n else '') + shape(t) for n, t in c) + ')' for c in cs)


def canon(row):
    return tuple(repr(v) for v in row)


def compare(W, plan, got, data):
    """got: rows (tuples of values) that reached the root, in order."""
    es = [x[:2] for x in schema_of(plan)]
    exact, want = order(plan, data)
    exp = [tuple(r[e] for e in es) for r in want]
    pool = list(exp)
    lim = plan
    while lim[0] in ('cb', 'print', 'noop'):
        lim = lim[1]
    if lim[0] == 'limit' and not exact:        # any rows will do
        if len(got) != len(exp):
            W.viol('rows', 'yields %d rows instead of %d' % (len(got), len(exp)))
            return
        pool = [tuple(r[e] for e in es) for r in ref(lim[1], data)]
    extra = []
    for g in got:
        m = next((i for i, w in enumerate(pool) if len(w) == len(g) and all(same(a, b) for a, b in zip(g, w))), None)
        if m is None:
            extra.append(g)
        else:
            pool.pop(m)
    if lim[0] == 'limit' and not exact and not extra:
        return
    if extra or pool:
        t = lambda r: '(%s)' % ', '.join('NULL' if v is None or isinstance(v, tuple) else str(v) for v in r)
        if len(got) != len(exp) and not extra:
            W.viol('rows', 'yields %d rows instead of %d, without %s' % (len(got), len(exp), t(pool[0])))
        elif len(got) != len(exp):
            W.viol('rows', 'yields %d rows instead of %d, among them %s' % (len(got), len(exp), t(extra[0])))
        else:
            W.viol('rows', 'yields %s instead of %s' % (t(extra[0]), t(pool[0]) if pool else 'nothing'))
        return
    if exact:
        keys = exact
        kg = [tuple(k(dict(zip(es, g))) for k in keys) for g in got]
        kw = [tuple(k(r) for k in keys) for r in want]
        for i, (a, b) in enumerate(zip(kg, kw)):
            if not all(same(x, y) for x, y in zip(a, b)):
                W.viol('order', 'yields rows in the wrong order: row %d has key %s instead of %s' % (i, a, b))
                return


def order(plan, data):
    """(key functions if the order of the rows is determined, rows)"""
    rows = ref(plan, data)
    p = plan
    while p[0] in ('cb', 'print', 'noop', 'limit'):
        p = p[1]
    if p[0] == 'sort':
        return [lambda r, t=t: ev(t, r) for t, _ in p[2]], rows
    return None, rows


TA, TB, TF, TG, TC, TS = (des('t', n, ty) for n, ty in T_COLS)
UA, UX, UY = (des('u', n, ty) for n, ty in U_COLS)
WK, WX = (des('w', n, ty) for n, ty in W_COLS)


def num(v, ty=I4):
    return const('TK_DEC_INT' if isinstance(v, int) else 'TK_DEC_FLOAT', str(v), ty)


def cmp(op, a, b):
    return bi({'=': 'TK_EQUAL', '!=': 'TK_BANG_EQUAL', '<': 'TK_LESS', '<=': 'TK_LESS_EQUAL', '>': 'TK_GREATER', '>=': 'TK_GREATER_EQUAL'}[op], op, a, b, B)


def agg(f, *args):
    t = typeof(args[0]) if args else I8
    ty = I8 if f == 'COUNT' else F8 if f == 'AVG' else t if f in ('MIN', 'MAX') else F8 if t[2] == 'N_Float' else I8
    return fn(f, *args, ty=ty)


def scenarios(full):
    t = ('scan', 't', T_COLS, 't')
    u = ('scan', 'u', U_COLS, 'u')
    w = ('scan', 'w', W_COLS, 'w')
    S = []
    add = lambda plan, roots=('cb',), **d: S.extend((('%s' % r, plan), d) for r in roots)
    sizes = (0, 1, 63, 64, 65, 128, 130) if full else (0, 1, 64, 65, 130)
    for n in sizes:
        add(t, ('cb', 'print', 'noop') if n in (0, 1, 65) else ('cb',), t=n)
    add(('scan', 'x', [('b', I4), ('a', I4)], 't'), t=3)
    # filters
    conds = [[[(0, cmp('=', TB, num(2)))]], [[(1, cmp('=', TB, num(2)))]], [[(0, TC)]], [[(1, TC)]], [[(0, TC), (0, cmp('<', TB, num(3)))]], [[(0, TC)], [(1, cmp('<', TB, num(3)))]], [[(0, cmp('<', TA, num(0)))]], []]
    for c in conds:
        add(('filter', t, c), t=9)
    for n in (64, 65, 130):
        add(('filter', t, [[(0, cmp('>=', TA, num(63)))]]), t=n)
    for c in ([(0, TC)], [(1, TC)], [(0, TC), (0, cmp('<', TB, num(2)))], [(1, TC), (1, cmp('<', TB, num(2)))], [(0, cmp('=', TB, num(0))), (0, cmp('=', TB, num(3))), (0, TC)], [(0, cmp('<', TA, num(0))), (0, cmp('<', TB, num(0)))]):
        add(('dfilter', t, c), t=13)
    add(('dfilter', t, [(0, cmp('>=', TA, num(64))), (0, cmp('<', TA, num(2)))]), t=66)
    # projections
    add(('proj', t, [(TB, None), (bi('TK_PLUS', '+', TA, TB, I4), 'x'), (TS, 'z'), (TC, None), (TG, None)]), ('cb', 'print'), t=7)
    add(('proj', t, [(TB, None)]), t=65)
    add(('proj', None, [(num(1), 'one'), (const('TK_True', 'TRUE', B), 'yes'), (const('TK_Null', 'NULL', I4), 'nothing')]), ('cb', 'print', 'noop'))
    add(('proj', ('filter', t, [[(0, cmp('=', TB, num(2)))]]), [(TA, None), (TB, None)]), t=9)
    # limits
    for n, lim, off in [(5, 0, 0), (5, 3, 0), (5, 5, 0), (5, 9, 0), (5, 2, 1), (5, 2, 4), (5, 2, 5), (5, 2, 9), (130, 64, 0), (130, 63, 1), (130, 65, 0), (130, 64, 64), (130, 1, 128), (130, 3, 63), (0, 3, 0)]:
        add(('limit', t, lim, off), t=n)
    add(('limit', ('filter', t, [[(0, cmp('=', TB, num(2)))]]), 2, 1), t=70)
    add(('limit', ('sort', t, [(TB, True), (TA, False)]), 4, 2), t=9)
    add(('sort', ('limit', ('sort', t, [(TA, True)]), 4, 1), [(TA, False)]), t=9)
    add(('limit', ('limit', ('sort', t, [(TA, True)]), 5, 1), 2, 1), t=9)
    # sorting
    for keys in ([(TA, False)], [(TB, True), (TA, True)], [(TB, False), (TA, False)], [(TF, True), (TA, True)], [(TG, False), (TA, True)], [(TC, True), (TA, False)], [(TC, False), (TB, True), (TA, True)], [(TS, True), (TA, True)],
                 [(TS, False), (TA, True)], [(bi('TK_MINUS', '-', TB, TA, I4), True), (TA, True)]):
        add(('sort', t, keys), t=13)
    for n in (0, 1, 64, 65):
        add(('sort', t, [(TB, True), (TA, False)]), t=n)
    # joins
    lt = [[(0, cmp('<', TB, UA))]]
    eq = [[(0, cmp('=', TA, UA))]]
    qe = [[(0, cmp('=', UA, TA))]]
    for p in (eq, qe):
        for n, m in ((0, 3), (3, 0), (3, 8), (8, 3)):
            add(('join', [t, u], p, None), t=n, u=m)
    add(('join', [t, u], [[(0, cmp('=', TB, UA))]], None), t=9, u=9)
    add(('join', [t, u], [[(0, cmp('=', TB, UA))], [(0, cmp('=', UX, TA))]], None), t=9, u=9)
    add(('join', [t, u], [[(0, cmp('=', TB, UA))]], {('t', 'a'), ('u', 'x'), ('t', 's')}), ('cb', 'print'), t=9, u=5)
    add(('join', [t, u], [[(0, cmp('=', TF, UY))]], None), t=9, u=9)
    add(('join', [u, t], eq, None), t=4, u=9)
    add(('join', [t, u], eq, None), t=1, u=4)
    add(('join', [t, u], [[(0, cmp('=', UX, TA))], [(0, cmp('=', TB, UA))]], None), t=14, u=14)
    for n in (64, 128):
        add(('join', [t, u], [[(0, cmp('=', TA, UX))]], {('t', 'a'), ('u', 'x')}), t=n, u=n)
    add(('join', [t, u], lt, {('t', 'a'), ('u', 'x')}), t=66, u=3)
    add(('join', [t, u], [[(0, cmp('=', TB, UA))]], {('t', 'a'), ('u', 'x')}), t=70, u=30)
    add(('filter', ('join', [t, u], [[(0, cmp('=', TB, UA))]], None), [[(0, cmp('<', UX, num(4)))]]), t=70, u=30)
    add(('filter', ('join', [t, u], [[(0, cmp('=', TB, UA))]], None), [[(0, cmp('>=', UX, num(3)))]]), t=70, u=30)
    add(('join', [t, u], [[(0, cmp('=', TB, UA))]], {('t', 'a'), ('u', 'x')}), t=33, u=70)
    add(('join', [u, w], [[(0, cmp('=', UA, WK))]], None), u=6, w=5)
    add(('join', [u, w], [[(1, cmp('!=', UX, UA)), ]], None) if 0 else ('join', [t, u], [[(1, cmp('!=', TB, UA))]], None), t=6, u=5)
    # nested loops
    lt = [[(0, cmp('<', TB, UA))]]
    for p in (lt, [], [[(0, cmp('<', TB, UA)), (1, TC)]], [[(1, cmp('<', UA, TB))], [(0, TC)]]):
        for n, m in ((5, 8), (0, 3), (3, 0), (1, 1)):
            add(('join', [t, u], p, None), t=n, u=m)
    add(('join', [t, u], lt, {('t', 'a'), ('u', 'x')}), t=3, u=66)
    add(('filter', ('join', [t, u], lt, {('t', 'a'), ('u', 'x')}), [[(0, cmp('>=', UX, num(3)))]]), t=3, u=66)
    add(('join', [u, t], lt, {('t', 'a'), ('u', 'x')}), t=66, u=3)
    add(('join', [t, u, w], [[(0, cmp('<', TB, UA))], [(0, cmp('<', UX, WX))]], None), t=4, u=5, w=3)
    add(('join', [w, u, t], [], {('t', 'a'), ('u', 'x'), ('w', 'x')}), t=3, u=2, w=4)
    add(('join', [w, u, t], [], {('t', 'a'), ('u', 'x'), ('w', 'x')}), t=3, u=0, w=2)
    add(('join', [('filter', t, [[(0, cmp('<', TA, num(2)))]]), u], [], None), t=4, u=3)
    # grouping
    ag = [agg('COUNT'), agg('COUNT', TB), agg('SUM', TA), agg('SUM', TF), agg('AVG', TA), agg('AVG', TF), agg('MIN', TB), agg('MAX', TB), agg('MIN', TF), agg('MAX', TF), agg('MIN', TG), agg('MAX', TG), agg('SUM', TG)]
    for key in ([(TB, None)], [(TC, None), (TB, 'q')], [(bi('TK_MINUS', '-', TA, TB, I4), 'd')], [(TF, None)], []):
        for A in (ag[:4], ag[4:8], ag[8:], []):
            if key or A:
                if key:
                    add(('group', t, key, A), t=20)
    add(('group', t, [(TB, None)], ag), t=3)
    add(('group', t, [(TB, None)], [agg('COUNT'), agg('COUNT', TB), agg('SUM', TA), agg('MIN', TG), agg('MAX', TF)]), ('cb', 'print'), t=3)
    for n in (0, 1, 64, 65, 130):
        add(('group', t, [(TA, None)], [agg('COUNT'), agg('MAX', TB)]), t=n)
    add(('group', t, [(TB, None)], [agg('COUNT'), agg('SUM', TA), agg('AVG', TF)]), t=130)
    # aggregation
    for n in (0, 1, 2, 13, 65, 130):
        for A in ([ag[:5], ag[5:9], ag[9:]] if n < 65 else [[agg('COUNT'), agg('COUNT', TB), agg('SUM', TB), agg('AVG', TF), agg('MIN', TB), agg('MAX', TF)]]):
            add(('agg', t, A), t=n)
    add(('agg', t, [agg('AVG', TF), agg('AVG', TA), agg('AVG', TB)]), t=9)
    # compositions
    grp = ('group', t, [(TB, None)], [agg('SUM', TA), agg('COUNT')])
    gsum = agg('SUM', TA)
    add(('filter', grp, [[(0, cmp('>', gsum, num(10)))]]), t=20)
    add(('proj', grp, [(gsum, 's'), (TB, None)]), t=20)
    add(('sort', grp, [(TB, False)]), t=20)
    add(('proj', ('agg', ('join', [t, u], eq, None), [agg('COUNT'), agg('SUM', UX)]), [(agg('SUM', UX), 's')]), t=8, u=9)
    add(('group', ('join', [t, u], [[(0, cmp('=', TB, UA))]], None), [(UX, None)], [agg('COUNT'), agg('MAX', TA)]), t=20, u=9)
    add(('sort', ('proj', t, [(TA, 'z'), (TB, None)]), [(des(None, 'z', I4), False)]), t=5)
    add(('limit', ('join', [t, u], [[(0, cmp('=', TB, UA))]], {('t', 'a')}), 3, 1), t=9, u=9)
    add(('join', [('join', [t, u], eq, None), w], [[(0, cmp('=', UX, WX))]], None), t=8, u=16, w=5)
    add(('join', [w, ('join', [t, u], eq, None)], [[(0, cmp('=', UX, WX))]], None), t=8, u=16, w=5)
    add(('join', [('limit', ('sort', t, [(TA, False)]), 2, 1), ('filter', u, [[(0, cmp('<', UX, num(4)))]])], [], None), t=5, u=8)
    add(('filter', ('filter', t, [[(0, TC)]]), [[(0, cmp('>', TA, num(3)))]]), t=9)
    add(('dfilter', ('filter', t, [[(0, cmp('>', TA, num(1)))]]), [(0, TC), (0, cmp('=', TB, num(3)))]), t=9)
    return S


@check('I01', 'The interpreter evaluates every operator of a plan as the relational operation it stands for')
def i01(c):
    W = Interp(c)
    W.columns = {'t': T_COLS, 'u': U_COLS, 'w': W_COLS}
    full = os.environ.get('VERIF_TIER') == 'thorough'
    nob = nrows = 0
    for plan, d in scenarios(full):
        data = {'t': rows_t(d.get('t', 0)), 'u': rows_u(d.get('u', 0)), 'w': rows_w(d.get('w', 0))}
        W.op = {'cb': plan[1][0], 'print': 'print ' + plan[1][0], 'noop': 'noop ' + plan[1][0]}[plan[0]]
        W.show = '%s with %s' % (describe(plan[1]), ', '.join('%d rows in %s' % (v, k) for k, v in d.items()))
        for quiet in ((0, 1) if plan[0] == 'print' else (0,)):
            rets, thrown = W.go(plan, data, quiet)
            nob += 1
            if thrown:
                W.viol('throws', 'lets %s escape' % ', '.join(sorted({t.typ for t, _ in thrown})))
            if not rets and not thrown:
                W.viol('none', 'has no normal outcome')
            for _, s in rets:
                txt = content(s, ('root', 'out'))
                if not all(isinstance(x, str) for x in txt):
                    raise AnalysisBroken('unknown text of a plan: %s' % (txt,))
                txt = ''.join(txt)
                n = len(ref(plan, data))
                if plan[0] == 'cb':
                    want = tuple((x[0], x[1]) for x in schema_of(plan))
                    got = []
                    for ev_ in s.mon:
                        if tuple(x[:2] for x in ev_[1]) != want:
                            W.viol('schema', 'hands out rows with another schema')
                        if len(ev_[2]) < len(want):
                            W.viol('width', 'hands out rows of %d values instead of %d' % (len(ev_[2]), len(want)))
                        got.append(tuple(None if x[0] else bool(x[2]) if x[1] == 'b' else x[2] for x in ev_[2][:len(want)]))
                    nrows += len(got)
                    compare(W, plan, got, data)
                elif plan[0] == 'noop':
                    if txt != '%d rows\n' % n:
                        W.viol('count', 'reports %r instead of %d rows' % (txt, n))
                else:
                    lines = txt.split('\n')[:-1]
                    tail = '%d rows' % n
                    if not quiet and (not lines or lines[-1] != tail):
                        W.viol('count', 'reports %r instead of %d rows' % (lines[-1] if lines else '', n))
                    if not quiet:
                        lines = lines[:-1]
                    want = [','.join(fmt(r[x[:2]], x[2]) for x in schema_of(plan)) for r in ref(plan, data)]
                    if sorted(lines) != sorted(want):
                        bad = next((x for x in lines if x not in want), None)
                        W.viol('text', 'prints %d rows instead of %d%s' % (len(lines), len(want), ', among them %r' % bad if bad is not None else ''))
    c.use(W.E)
    c.ob(nob)
    c.stat('plans', nob)
    c.stat('rows handed out', nrows)
    c.floor('plans', nob, 150)
    c.rule('The visitors of the interpreter are interpreted on operator trees over tables with known contents (including NULL, duplicates and more rows than fit into a block); '
           'the rows that reach the root have to be those of relational algebra, in the order of the last sorting.')


def fmt(v, ty):
    if v is None or isinstance(v, tuple):
        return 'NULL'
    k = kind(ty)
    return ('TRUE' if v else 'FALSE') if k == 'b' else '"%s"' % v if k == 'p' else repr(float(v)) if k in 'fd' else repr(v)
