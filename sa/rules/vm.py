"""K01: the instructions of the interpreter's stack machine compute their documented function.

Each instruction segment of StackMachine::operator() is interpreted abstractly from a state with symbolic operand cells;
the result is a transfer function (guards and terms), which is compared with the reference transfer function."""
import itertools
import math
import re

from .. import concrete
from ..engine import Engine, Frame, NULL, VOID, State
from ..ir import AnalysisBroken, Program, walk
from ..registry import check
from ..terms import Eval, NULL as TNULL, Undef, consistent, f32, same, wrap

TOP = 8
M_ = ('root', 'M')


def V(k, m):
    return ('s', ('init', ('root', 'V', ('i', k), 'val_', m)))


# type tags of values (present in builds with sanity fields); a NULL carries the tag of no type
TAGS = {'b': 1, 'i': 2, 'f': 3, 'd': 4, 'p': 5}


def TAG(k):
    return ('s', ('init', ('root', 'V', ('i', k), 'type')))


def N(k):
    return ('s', ('init', ('root', 'N', ('i', k))))


def CTX(i, m):
    return ('s', ('init', ('root', 'this', 'context_', ('i', i), 'val_', m)))


INTS = [0, 1, -1, 2, 7, -13, 2 ** 31, -2 ** 31 - 1, 2 ** 40 + 5, -2 ** 62, 2 ** 63 - 1, -2 ** 63]
SMALL = [0, 1, 2, 3, 5, 8, 31]
FLOATS = [0.0, 1.0, -1.0, 1.5, -2.25, 1e10, 3.0]
STRS = ['', 'a', 'ab', 'b', 'B', 'abc']
SAMPLES = {'i': INTS, 'f': FLOATS, 'd': FLOATS + [1e-3], 'b': [0, 1], 'p': STRS}


def strcmp(a, b):
    return (a > b) - (a < b)


class R:
    """Reference of one instruction: operand members (deepest first), result member, function, null rule."""
    def __init__(self, ins, out, fn, null='strict', samples=None, skip=None, nops=0):
        self.ins, self.out, self.fn, self.null, self.samples, self.skip, self.nops = ins, out, fn, null, samples, skip, nops


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def cmod(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r


REF = {}


def ref(names, *a, **k):
    for n in names.split():
        REF[n] = R(*a, **k)


def b2(op, f, sfx='i f d', **k):
    for t in sfx.split():
        ff = (lambda f: (lambda x, y: f32(f(x, y))))(f) if t == 'f' and k.get('round') else f
        kk = {x: y for x, y in k.items() if x != 'round'}
        out = kk.pop('out', None) or t
        ref('%s_%s' % (op, t), [t if t != 's' else 'p', t if t != 's' else 'p'], out, ff, **kk)


b2('Add', lambda a, b: a + b)
b2('Sub', lambda a, b: a - b)
b2('Mul', lambda a, b: a * b)
divskip = lambda a, b: b == 0 or (a == -2 ** 63 and b == -1)
b2('Div', cdiv, 'i', skip=divskip)
b2('Div', lambda a, b: a / b, 'f d', skip=divskip)
b2('Mod', cmod, 'i', skip=divskip)
b2('And', lambda a, b: a & b, 'i')
b2('Or', lambda a, b: a | b, 'i')
b2('Xor', lambda a, b: a ^ b, 'i')
for _op, _f in (('Eq', lambda a, b: a == b), ('NE', lambda a, b: a != b), ('LT', lambda a, b: a < b), ('GT', lambda a, b: a > b),
                ('LE', lambda a, b: a <= b), ('GE', lambda a, b: a >= b)):
    b2(_op, _f, 'i f d s' + (' b' if _op in ('Eq', 'NE') else ''), out='b')
b2('Cmp', lambda a, b: (a > b) - (a < b), 'i f d b s', out='i')
REF['Cmp_s'].sign = True
ref('Inc', ['i'], 'i', lambda a: a + 1)
ref('Dec', ['i'], 'i', lambda a: a - 1)
for _t in 'ifd':
    ref('Minus_' + _t, [_t], _t, lambda a: -a)
ref('Neg_i', ['i'], 'i', lambda a: ~a)
ref('Not_b', ['b'], 'b', lambda a: 1 - a)
ref('And_b', ['b', 'b'], 'b', None, null='and')
ref('Or_b', ['b', 'b'], 'b', None, null='or')
ref('EqZ_i', ['i'], 'b', lambda a: a == 0)
ref('NEZ_i', ['i'], 'b', lambda a: a != 0)
ref('Is_Null', [''], 'b', None, null='isnull')
ref('Cast_i_f', ['f'], 'i', lambda a: int(a))
ref('Cast_i_d', ['d'], 'i', lambda a: int(a))
ref('Cast_i_b', ['b'], 'i', lambda a: a)
ref('Cast_f_i', ['i'], 'f', lambda a: f32(float(a)))
ref('Cast_f_d', ['d'], 'f', lambda a: f32(a))
ref('Cast_d_i', ['i'], 'd', lambda a: float(a))
ref('Cast_d_f', ['f'], 'd', lambda a: float(a))
ref('ShL_i', ['i', 'i'], 'i', lambda a, b: wrap(a << b, 64, 1), null='nocheck', samples=[INTS, SMALL])
ref('ShLi_i', ['i'], 'i', lambda a, ops: wrap(a << ops[0], 64, 1), nops=1)
ref('SARi_i', ['i'], 'i', lambda a, ops: a >> ops[0], nops=1)
ref('Like_expr', ['p', 'p'], 'b', lambda a, b: ('like', a, b, 92))
ref('Like_const', ['p', 'p'], 'b', lambda a, b: ('match', a, b), null='lhs')
ref('Add_p', ['i', 'p'], 'p', lambda a, b: b[:2] + (b[2] + a,), null='lhs', samples=[[0, 1, 8, 500], [('addr', 'P', 0)]])

OPER = [2, 3, 5]    # operands of the instruction in the opcode stream
WIDTHS = {'i8': ('int8_t', 8), 'i16': ('int16_t', 16), 'i32': ('int32_t', 32), 'i64': ('int64_t', 64)}
CNAMES = {'int8_t': {'int8_t', 'signed char'}, 'int16_t': {'int16_t', 'short'}, 'int32_t': {'int32_t', 'int'},
          'int64_t': {'int64_t', 'long'}, 'float': {'float'}, 'double': {'double'}, 'uint8_t': {'uint8_t', 'unsigned char'}}


def norm_as(t):
    """Normalises the pointee names in a term."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'op' and isinstance(t[1], str) and t[1].startswith('as:'):
            n = t[1][3:]
            for c, al in CNAMES.items():
                if n in al or n.replace('std::', '') in al:
                    n = c
            return ('op', 'as:' + n, norm_as(t[2]))
        return tuple(norm_as(x) for x in t)
    return t


def chars(e):
    """The character pointer a temporary string is constructed from."""
    x = e
    while isinstance(x, dict):
        if x['k'] == 'ctor' and 'basic_string' in (x.get('cls') or x.get('q') or '') and x.get('args'):
            return x['args'][0]
        x = x.get('e')
    return e


class VM:
    def __init__(self, c):
        self.c = c
        self.P = Program(['src/backend/StackMachine.cpp'])
        self.fn = None
        for f in self.P.find('m::StackMachine::operator()'):
            if f.body is not None and any(s['k'] == 'igoto' or s['k'] == 'label' for s in walk(f.body)):
                self.fn = f
        if self.fn is None:
            raise AnalysisBroken('anchor vanished: the instruction interpreter')
        self.E = E = Engine(self.P)
        E.keep_terms = E.keep_numcasts = True
        E.value_classes = {'m::Value'}
        E.MAX_DEPTH = 60
        concrete.install(E)
        self.models(E)
        self.stmts = self.fn.body['b']
        self.labels = {}
        for i, s in enumerate(self.stmts):
            while s and s['k'] == 'label':
                self.labels[s['n']] = i
                s = s['s']
        E.stmt_hook = self.stmt_hook
        self.start = None

    def stmt_hook(self, n, st, fr):
        if n['k'] == 'label' and n['n'] == 'Stop' and self.start != 'Stop':
            return [(('stopped',), st)]
        if n['k'] == 'igoto':
            # the dispatch: the block-local free-memory pointer outlives the dispatch
            v = st.mem.get(self.pmem)
            return [(('igoto',), s if v is None else s.set(('root', 'pmem'), v)) for _, s in self.E.ev_arg(n['e'], st, fr)]
        return None

    def models(self, E):
        M = E.models
        for n, op in (('plus', '+'), ('minus', '-'), ('multiplies', '*'), ('divides', '/'), ('modulus', '%'), ('bit_and', '&'), ('bit_or', '|'),
                      ('bit_xor', '^'), ('equal_to', '=='), ('not_equal_to', '!='), ('less', '<'), ('greater', '>'), ('less_equal', '<='),
                      ('greater_equal', '>='), ('logical_and', '&&'), ('logical_or', '||'), ('negate', '-'), ('logical_not', '!'), ('bit_not', '~')):
            def h(E, e, st, fr, op=op):
                vals = [((), st)]
                for a in e['args']:
                    vals = [(vs + (E.simplify(v, s2),), s2) for vs, s in vals for v, s2 in E.ev(a, s, fr)]
                return [(E.fold(op, vs), self.need(s, 'nonzero', vs[1]) if op in '/%' else s) for vs, s in vals]
            M['std::%s::operator()' % n] = h

        def term(name):
            def h(E, e, st, fr):
                vals = [((), st)]
                for a in e['args']:
                    vals = [(vs + (E.simplify(v, s2),), s2) for vs, s in vals for v, s2 in E.ev_ptr(chars(a), s, fr)]
                out = []
                for vs, s in vals:
                    vs = tuple(('p', v[1]) if isinstance(v, tuple) and v and v[0] in ('lref', 'obj') else v for v in vs)
                    for v in vs if name == 'strcmp' else ():
                        s = self.need(s, 'nonnull', v)
                    out.append((('op', name) + vs, s))
                return out
            return h
        M['strcmp'] = M['std::strcmp'] = term('strcmp')
        M['m::like'] = term('like')

        def match(E, e, st, fr):
            out = []
            for v, s in E.ev_ptr(chars(e['args'][0]), st, fr):
                for l, s2 in E.lv(e['args'][1], s, fr):
                    out.append((('op', 'match', v, l[1] if l[0] == 'd' and len(l) == 2 else ('p', l)), s2))
            return out
        M['std::regex_match'] = match

        def effect(name):
            t = term(name)

            def h(E, e, st, fr):
                return [(VOID, s.withmon(s.mon + (v,))) for v, s in t(E, e, st, fr)]
            return h
        for n in ('strncpy', 'memcpy', 'strcpy', 'memmove'):
            M[n] = M['std::' + n] = effect(n)

        def memset(E, e, st, fr):
            out = []
            for v, s in E.ev(e['args'][0], st, fr):
                for x, s2 in E.ev(e['args'][1], s, fr):
                    if isinstance(v, tuple) and v[0] == 'p' and x == 0:
                        l = v[1]
                        s2 = E.kill_prefix(l, s2).copy()
                        for m in ('b', 'i', 'f', 'd', 'p'):
                            s2.mem[l + (m,)] = NULL if m == 'p' else 0
                        out.append((VOID, s2))
                    else:
                        out.append((VOID, s2.withmon(s2.mon + (('op', 'memset', v, x),))))
            return out
        M['memset'] = memset

        # streams
        def stream(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            if len(ops) != 2:
                return None
            T = fr.fn.ty(ops[0]) or {}
            if 'stream' not in (T.get('rec') or ''):
                return None
            out = []
            for l, s in E.lv(ops[0], st, fr):
                for v, s2 in E.ev_ptr(ops[1], s, fr):
                    v = E.simplify(v, s2)
                    if isinstance(v, tuple) and v and v[0] in ('obj', 'lref'):
                        x = s2.mem.get(v[1] + ('__fmt',)) or s2.mem.get(v[1])
                        if x is None:
                            raise AnalysisBroken('stream operand not understood at ' + fr.fn.loc(e))
                        v = x
                    if isinstance(v, tuple) and v and v[0] == 'fn':
                        v = ('manip', v[2])
                    OT = fr.fn.ty(ops[1]) or {}
                    if isinstance(v, int) and OT.get('bt') == 'int' and OT.get('w') == 8 and not OT.get('ptr'):
                        v = ('str', chr(v))
                    kind = 'chr' if OT.get('bt') == 'int' and OT.get('w') == 8 and not OT.get('ptr') else 'val'
                    if isinstance(v, tuple) and v[0] != 'manip' and v[0] != 'str' and kind == 'chr':
                        v = ('op', 'chr', v)
                    out.append((('lref', l), s2.withmon(s2.mon + (('<<', l, v),))))
            return out
        E.model_pred.insert(0, (lambda q, e: e.get('op') == '<<', stream))

        def setw(E, e, st, fr):
            return [(('fmt', 'setw', v), s) for v, s in E.ev(e['args'][0], st, fr)]
        M['std::setw'] = setw
        M['std::setfill'] = lambda E, e, st, fr: [(('fmt', 'fill', v), s) for v, s in E.ev(e['args'][0], st, fr)]
        M['std::setprecision'] = lambda E, e, st, fr: [(('fmt', 'precision', v), s) for v, s in E.ev(e['args'][0], st, fr)]

        def prop(name):
            def h(E, e, st, fr):
                out = []
                for l, s in E.obj_loc(e, st, fr):
                    cur = s.mem.get(('root', 'fmt', name), ('s', ('fmt0', name)))
                    if not e['args']:
                        out.append((cur, s))
                        continue
                    for v, s2 in E.ev(e['args'][0], s, fr):
                        s2 = s2.set(('root', 'fmt', name), v)
                        out.append((cur, s2.withmon(s2.mon + (('<<', l, ('fmt', name, v)),))))
                return out
            return h
        for C in ('std::basic_ios', 'std::ios_base', 'std::basic_ostream'):
            for n in ('fill', 'precision', 'flags', 'width'):
                M[C + '::' + n] = prop(n)

        def gmtime(E, e, st, fr):
            out = []
            for a, s in E.ev(e['args'][0], st, fr):
                for b, s2 in E.ev(e['args'][1], s, fr):
                    if not (isinstance(a, tuple) and a[0] == 'p' and isinstance(b, tuple) and b[0] == 'p'):
                        raise AnalysisBroken('gmtime_r arguments at ' + fr.fn.loc(e))
                    t, s2 = E.read(a[1], None, s2)
                    s2 = E.kill_prefix(b[1], s2)
                    out.append((b, s2.set(b[1] + ('__o',), ('tm', t))))
            return out
        M['gmtime_r'] = gmtime

        def put_tm(E, e, loc, st, fr):
            out = []
            for v, s in E.ev(e['args'][0], st, fr):
                if isinstance(v, tuple) and v and v[0] in ('obj', 'lref'):
                    o = E.origin(v[1] + ('x',), s)[:-1]
                    s = E.kill_prefix(loc, s)
                    out.append((VOID, s.set(loc + ('__fmt',), ('op', 'datetime', o[1] if o[:1] == ('tm',) else ('s', 'unknown-tm')))))
                else:
                    raise AnalysisBroken('put_tm argument at ' + fr.fn.loc(e))
            return out
        M['ctor:m::put_tm'] = put_tm

        def stackpop(E, e, st, fr):
            return None
        E.models.pop('std::vector::pop_back', None)
        M['std::vector::pop_back'] = lambda E, e, st, fr: [(VOID, s.withmon(s.mon + (('pop_back', l),))) for l, s in E.obj_loc(e, st, fr)]
        for n in ('cbegin', 'begin'):
            M['std::vector::' + n] = lambda E, e, st, fr: [(('p', l + (('i', 0),)), s) for l, s in E.obj_loc(e, st, fr)]

        def div(e, st, fr):
            if e['op'] not in ('/', '%') or 'cv' in e:
                return None
            T = fr.fn.ty(e)
            if not T or T.get('bt') != 'int':
                return None
            out = []
            for a, s in E.ev(e['a'], st, fr):
                for b, s2 in E.ev(e['b'], s, fr):
                    a2, b2 = E.simplify(a, s2), E.simplify(b, s2)
                    if isinstance(b2, int):
                        if b2 == 0:
                            continue
                    else:
                        s2 = self.need(s2, 'nonzero', b2)
                    out.append((E.fold(e['op'], (a2, b2)), s2))
            return out
        E.expr_hook = lambda e, st, fr: div(e, st, fr) if e['k'] == 'bin' else None

    @staticmethod
    def need(st, what, v):
        """A partial operation is applied: its requirement."""
        return st.withmon(st.mon + (('need', what, v),))

    # ---------------------------------------------------------------------------------------------- running
    def init(self, strings=None):
        st = State()
        st.mon = ()
        this = ('root', 'this')
        st.mem[this + ('top_',)] = TOP
        st.mem[this + ('values_',)] = ('p', ('root', 'V', ('i', 0)))
        st.mem[this + ('null_bits_',)] = ('p', ('root', 'N', ('i', 0)))
        st.mem[this + ('op_',)] = ('p', ('root', 'ops', ('i', 1)))
        for i, o in enumerate(OPER):
            st.mem[('root', 'ops', ('i', 1 + i))] = o
        # the variable that holds the next free byte of the memory
        for s in self.stmts[:min(self.labels.values())]:
            if s['k'] == 'decl':
                for v in s['vs']:
                    T = self.fn.types[v['t']]
                    if T.get('ptr') and not v.get('static') and 'memory_' in repr(v.get('init')):
                        self.pmem = ('v', 1, v['d'])
                        st.mem[self.pmem] = ('p', M_ + (('i', 0),))
        if not hasattr(self, 'pmem'):
            raise AnalysisBroken('anchor vanished: free-memory pointer of the instruction interpreter')
        st.mem[('v', 1, self.fn.params[0]['d'])] = ('p', ('root', 'tuples', ('i', 0)))
        return st

    def run(self, name, st):
        E = self.E
        self.start = name
        fr = Frame(self.fn, 1, ('root', 'this'))
        fr.env[self.fn.params[0]['d']] = ('v', 1, self.fn.params[0]['d'])
        self.aborts = []
        E.insist_hook = lambda e, s, f: None
        E.abort_hook = lambda e, s, f: self.aborts.append((e, s))
        E.null_hook = None
        E.sinks.append([])
        out = E.ex_seq(self.stmts, st, fr, self.fn.body, self.labels[name])
        E.sinks.pop()
        E.visited_funcs.add(self.fn.key)
        return out


def states_of(vm, name, st):
    res = []
    for o, s in vm.run(name, st):
        res.append(('stop' if o and o[0] == 'stopped' else 'next' if o and o[0] == 'igoto' else 'end', s))
    return res


def cell(E, st, k, m):
    v, _ = E.read(('root', 'V', ('i', k), 'val_', m), None, st)
    return norm_as(v)


def nul(E, st, k):
    v, _ = E.read(('root', 'N', ('i', k)), {'bt': 'bool', 's': 'bool'}, st)
    return v


def changed(E, st, keep):
    """Locations whose contents differ from the initial ones (locals, temporaries and bookkeeping aside)."""
    out = []
    for l, v in st.mem.items():
        if l[0] in ('v', 't') or l[-1] in ('__alive', '__ref', '__cls', 'type') or keep(l):
            continue
        if l[-1] == '__o':
            if v != l[:-1]:
                out.append((l, v))
            continue
        if v == ('s', ('init', E.origin(l, st))) and E.origin(l, st) == l:
            continue
        d = st.dom.get(('s', ('init', l)))
        if d is not None and len(d) == 1 and next(iter(d)) == v:
            continue      # a branch determined the initial value
        out.append((l, v))
    return out


class K01:
    def __init__(self, c):
        self.c = c
        self.vm = VM(c)
        self.E = self.vm.E
        self.default_vals = {}

    def viol(self, op, what, msg, st=None):
        loc = '%s:%d' % (self.vm.fn.file, self.line(op))
        self.c.viol('K01:%s:%s' % (op, what), loc + ' (instruction %s)' % op, msg, st.notes() if st else ())

    def line(self, op):
        i = self.vm.labels.get(op)
        return self.vm.stmts[i].get('l', self.vm.fn.line) if i is not None else self.vm.fn.line

    def valuation(self, extra):
        val = dict(extra)
        cnt = [0]

        def default(t):
            n = t[1]
            if isinstance(n, tuple) and n[0] == 'init':
                l = n[1]
                if l[-1] in ('i', 'f', 'd', 'b', 'p') and 'val_' in l:
                    h = sum(map(ord, repr(l))) % 97
                    return {'i': 1000 + h, 'f': 1000.5 + h, 'd': 2000.5 + h, 'b': h & 1, 'p': 'str%d' % h}[l[-1]]
                if l[:2] == ('root', 'N'):
                    return 0
            return None
        return Eval(self.E, val, {'strcmp': strcmp, 'like': lambda a, b, e=92: ('like', a, b, e), 'match': lambda a, b: ('match', a, b)}, default)

    def pick(self, states, ev, op):
        """The final states whose guard holds under the valuation."""
        r = [(o, s) for o, s in states if consistent(self.E, s, ev)]
        return r

    KEEP = staticmethod(lambda l: l[:2] in (('root', 'ops'), ('root', 'fmt'), ('root', 'pmem')) or l == ('root', 'this', 'op_') or l == ('root', 'this', 'top_') or
                        l[:3] in (('root', 'this', 'values_'), ('root', 'this', 'null_bits_')))

    def common(self, op, o, s, delta, nops, cells, extra_ok=lambda l: False, memory_ok=False):
        """Frame condition: stack pointer, operand fetch, nothing else touched."""
        E = self.E
        ok = True
        top = s.mem.get(('root', 'this', 'top_'))
        if top != TOP + delta:
            self.viol(op, 'delta', 'the instruction changes the stack height by %s; its declared delta is %+d' % (top - TOP if isinstance(top, int) else top, delta), s)
            ok = False
        p = s.mem.get(('root', 'this', 'op_'))
        if p != ('p', ('root', 'ops', ('i', 1 + nops + (o == 'next')))):
            self.viol(op, 'operands', 'the instruction does not consume exactly its %d operand(s) from the opcode sequence' % nops, s)
            ok = False
        newtop = TOP + delta
        for l, v in changed(E, s, self.KEEP):
            if l[:2] in (('root', 'V'), ('root', 'N')) and (l[2][1] in cells or l[2][1] >= newtop):
                continue
            if memory_ok and l[:2] == M_:
                continue
            if extra_ok(l):
                continue
            self.viol(op, 'frame', 'the instruction writes %s, which is not part of its effect' % (show(l),), s)
            ok = False
        return ok

    def check_pure(self, op, r, delta, nops):
        E, c = self.E, self.c
        st = self.vm.init()
        n = len(r.ins)
        states = states_of(self.vm, op, st)
        if not states:
            self.viol(op, 'never', 'the instruction never completes')
            return
        res = TOP - n
        for o, s in states:
            if o != 'next':
                self.viol(op, 'end', 'the instruction does not continue with the next instruction', s)
            c.ob(1, self.common(op, o, s, 1 - n, nops, {res}))
            eff = [x for x in s.mon if x[0] != 'need']
            if eff:
                self.viol(op, 'effect', 'unexpected side effect %s' % (eff[:1],), s)
        samples = r.samples or [SAMPLES[m] if m else [0] for m in r.ins]
        bad = 0
        for vals in itertools.product(*samples):
            for nulls in itertools.product((0, 1), repeat=n):
                ext = {}
                for k in range(n):
                    ext[TAG(res + k)] = 0 if nulls[k] else TAGS[r.ins[k]] if r.ins[k] else 2
                for k, (m, v, nu) in enumerate(zip(r.ins, vals, nulls)):
                    if m:
                        ext[V(res + k, m)] = NULL if nu and m == 'p' and v == '' else v
                    ext[N(res + k)] = nu
                skip = r.skip and r.skip(*vals)
                ev = self.valuation(ext)
                picked = self.pick(states, ev, op)
                if r.null == 'nocheck':
                    if any(nulls):
                        continue
                    wnull = 0
                elif r.null == 'strict':
                    wnull = int(any(nulls))
                elif r.null == 'lhs':
                    if nulls[1]:
                        continue
                    wnull = nulls[0]
                elif r.null == 'isnull':
                    wnull = 0
                elif r.null in ('and', 'or'):
                    x = [None if nu else bool(v) for v, nu in zip(vals, nulls)]
                    if r.null == 'and':
                        w = False if False in x else None if None in x else True
                    else:
                        w = True if True in x else None if None in x else False
                    wnull = int(w is None)
                if r.null == 'isnull':
                    want = nulls[0]
                elif wnull:
                    want = None
                elif r.null in ('and', 'or'):
                    want = int(w)
                elif skip:
                    continue
                else:
                    want = r.fn(*vals, OPER) if r.nops else r.fn(*vals)
                    if isinstance(want, bool):
                        want = int(want)
                    if r.out == 'f' and isinstance(want, float):
                        want32 = f32(want)
                c.ob(1, True)
                if not picked:
                    self.viol(op, 'undefined', 'the instruction has no result for operands %s with NULL bits %s (assertion failure or abort)' % (vals, nulls))
                    return
                for o, s in picked:
                    for _, what, v in [x for x in s.mon if x[0] == 'need']:
                        try:
                            x = ev(v)
                            if x == NULL if what == 'nonnull' else (x == 0 and not isinstance(v, float)) and r.out == 'i':
                                self.viol(op, 'partial', 'for operands %s with NULL bits %s the instruction %s' % (
                                    vals, nulls, 'reads through a null pointer' if what == 'nonnull' else 'divides by zero'), s)
                                return
                        except Undef:
                            pass
                    try:
                        gn = ev(nul(E, s, res))
                    except Undef as ex:
                        self.viol(op, 'null', 'the NULL bit of the result is not a function of the operands (%s)' % ex, s)
                        return
                    if int(bool(gn)) != wnull:
                        self.viol(op, 'null', 'for operands %s with NULL bits %s the result is %s but must be %s' % (
                            vals, nulls, 'NULL' if gn else 'not NULL', 'NULL' if wnull else 'not NULL'), s)
                        return
                    if want is None:
                        continue
                    t = cell(E, s, res, r.out)
                    try:
                        if t == ('s', ('init', ('root', 'V', ('i', res), 'val_', r.out))) and r.out not in (r.ins[0],) and op != 'Cast':
                            raise Undef('no %s value is produced' % r.out)
                        got = ev(t)
                    except Undef as ex:
                        self.viol(op, 'result', 'the result is not the documented function of the operands: %s' % str(ex)[:200], s)
                        return
                    if getattr(r, 'sign', False):
                        ok = isinstance(got, int) and (got > 0) - (got < 0) == (want > 0) - (want < 0)
                    else:
                        ok = same(got, want) or (r.out == 'f' and isinstance(want, float) and isinstance(got, (int, float)) and same(f32(float(got)), want32))
                    if not ok:
                        self.viol(op, 'result', 'for operands %s with NULL bits %s the result is %s but must be %s' % (vals, nulls, got, want), s)
                        return


def show(l):
    return '.'.join(str(x[1]) if isinstance(x, tuple) and x and x[0] == 'i' else str(x) if not isinstance(x, tuple) else '*' for x in l[1:])


MEMBERS = ('b', 'i', 'f', 'd', 'p')
TUP, IDX = OPER[0], OPER[1]
TUPLE = ('d', ('s', ('init', ('root', 'tuples', ('i', TUP)))))
TVALS = ('s', ('init', TUPLE + ('values_',)))


def tcell(m):
    return ('d', TVALS, ('i', IDX), 'val_', m)


class Special:
    """Reference behaviour of the instructions that do more than combine operands."""
    def __init__(self, k):
        self.k, self.E, self.c, self.vm = k, k.E, k.c, k.vm

    def base(self, **kw):
        v = {}
        for k in (5, 6, 7):
            for m, x in zip(MEMBERS, (1, 100 + k, 10.5 + k, 20.5 + k, ('addr', 'P%d' % k, 0))):
                v[V(k, m)] = x
            v[N(k)] = 0
        return v

    def whole(self, k):
        return {m: V(k, m) for m in MEMBERS}

    def run(self, op, delta, nops, vals, expect, cells=(), extra_ok=lambda l: False, st=None, memory_ok=False, memw=False):
        k, E, c = self.k, self.E, self.c
        if op not in self.vm.labels:
            return
        st = st or self.vm.init()
        states = states_of(self.vm, op, st)
        for o, s in states:
            if o == 'next':
                c.ob(1, k.common(op, o, s, delta(s) if callable(delta) else delta, nops, set(cells), (lambda l: l[0] == 'd' or extra_ok(l)) if memw else extra_ok, memory_ok))
        for val in vals:
            ev = k.valuation(val)
            want = expect(val)
            picked = k.pick(states, ev, op)
            c.ob(1, True)
            desc = want.get('when', '')
            if not picked:
                k.viol(op, 'undefined', 'the instruction has no result %s (assertion failure or abort)' % desc)
                return
            for o, s in picked:
                if o != want.get('out', 'next'):
                    k.viol(op, 'control', 'the machine %s %s' % ('stops' if o == 'stop' else 'continues', desc), s)
                    return
                for (i, m), w in want.get('cells', {}).items():
                    try:
                        g = ev(cell(E, s, i, m))
                    except Undef as ex:
                        g = 'unknown (%s)' % str(ex)[:100]
                    if not same(g, w):
                        k.viol(op, 'result', 'stack slot %+d (member %s) is %s but must be %s %s' % (i - TOP, m, g, w, desc), s)
                        return
                for i, w in want.get('nulls', {}).items():
                    try:
                        g = int(bool(ev(nul(E, s, i))))
                    except Undef as ex:
                        g = 'unknown'
                    if g != w:
                        k.viol(op, 'null', 'NULL bit of stack slot %+d is %s but must be %s %s' % (i - TOP, g, w, desc), s)
                        return
                for l, w in want.get('locs', {}).items():
                    v, _ = E.read(l, None, s)
                    try:
                        g = ev(norm_as(v))
                    except Undef as ex:
                        g = 'unknown (%s)' % str(ex)[:100]
                    if not same(g, w):
                        k.viol(op, 'write', '%s is %s but must be %s %s' % (show(l), g, w, desc), s)
                        return
                if 'mem' in want:
                    got = []
                    for l, v in s.mem.items():
                        if l[0] == 'd' and l not in want.get('locs', {}) and not extra_ok(l) and v != ('s', ('init', l)):
                            p = norm_as(l[1])
                            ty = p[1][3:] if p[0] == 'op' and p[1].startswith('as:') else '?'
                            try:
                                got.append((ty, ev(p), ev(norm_as(v))))
                            except Undef as ex:
                                got.append((ty, 'unknown', str(ex)[:80]))
                    if got != want['mem']:
                        k.viol(op, 'memory', 'memory writes are %s but must be %s %s' % (got, want['mem'], desc), s)
                        return
                eff = want.get('effects', [])
                try:
                    got = self.effects(s, ev)
                except Undef as ex:
                    got = 'unknown (%s)' % str(ex)[:100]
                if got != eff:
                    k.viol(op, 'effect', 'the effects are %s but must be %s %s' % (got, eff, desc), s)
                    return

    def effects(self, s, ev):
        """Normalised side effects: calls, and what is written to which stream in which format."""
        out = []
        fmt = {}

        def text(stream, t):
            w = fmt.pop('setw', 0)
            if w and len(t) < w:
                out.append((stream, 'padded', t, w, fmt.get('fill')))
            elif out and isinstance(out[-1], tuple) and out[-1][:2] == (stream, 'text'):
                out[-1] = (stream, 'text', out[-1][2] + t)
            elif t:
                out.append((stream, 'text', t))
        for x in s.mon:
            if x[0] == '<<':
                stream = ev(x[1][1]) if x[1][0] == 'd' and len(x[1]) == 2 else x[1]
                v = x[2]
                if isinstance(v, tuple) and v and v[0] == 'str':
                    text(stream, v[1])
                elif isinstance(v, tuple) and v and v[0] == 'op' and v[1] == 'chr':
                    text(stream, chr(ev(v[2]) & 255))
                elif isinstance(v, tuple) and v and v[0] == 'manip':
                    n = v[1].split('::')[-1]
                    if n in ('internal', 'left', 'right'):
                        fmt['adj'] = n
                    elif n in ('dec', 'hex', 'oct'):
                        fmt['base'] = n
                    elif n == 'flush':
                        pass
                    else:
                        fmt[n] = 1
                elif isinstance(v, tuple) and v and v[0] == 'fmt':
                    w = v[2]
                    if w == ('s', ('fmt0', v[1])):
                        if v[1] == 'flags':
                            fmt.pop('adj', None)
                            fmt.pop('base', None)
                        fmt.pop(v[1], None)
                    else:
                        fmt[v[1]] = ev(w)
                else:
                    if isinstance(v, tuple) and v and v[0] == 'op' and v[1] == 'datetime':
                        val = ('datetime', ev(v[2]))
                    else:
                        val = ev(norm_as(v))
                    if isinstance(val, str):
                        text(stream, val)
                        continue
                    w = fmt.pop('setw', 0)
                    f = {a: b for a, b in fmt.items()}
                    if not w:
                        f.pop('fill', None)
                        f.pop('adj', None)
                    if not isinstance(val, float):
                        f.pop('precision', None)
                    out.append((stream, 'value', val, w, tuple(sorted(f.items()))))
            elif x[0] == 'need':
                continue
            elif x[0] == 'op':
                out.append((x[1],) + tuple(ev(norm_as(a)) for a in x[2:]))
            else:
                out.append(x)
        left = {a: b for a, b in fmt.items() if b}
        if left:
            out.append(('format of the stream is left changed', tuple(sorted(left.items()))))
        return out

    # -------------------------------------------------------------------------------------- the instructions
    def all(self, pops, args):
        R_ = self.run
        T = TOP - 1
        # control flow
        for op, m, f in (('Stop_Z', 'i', lambda x: x == 0), ('Stop_NZ', 'i', lambda x: x != 0), ('Stop_False', 'b', lambda x: not x), ('Stop_True', 'b', lambda x: x)):
            vals = []
            for x in SAMPLES[m]:
                v = self.base()
                v[V(T, m)] = x
                vals.append(v)
            R_(op, 0, 0, vals, lambda v, m=m, f=f: {'out': 'stop' if f(v[V(T, m)]) else 'next', 'when': 'when the top of the stack is %s' % v[V(T, m)]})
        nv = []
        for n in (0, 1):
            v = self.base()
            v[N(T)] = n
            nv.append(v)
        R_('Pop', -1, 0, nv, lambda v: {})
        R_('Push_Null', 1, 0, nv, lambda v: {'nulls': {TOP: 1}}, cells={TOP})
        R_('Dup', 1, 0, nv, lambda v: {'cells': {(k, m): v[V(T, m)] for k in (T, TOP) for m in MEMBERS}, 'nulls': {TOP: v[N(T)], T: v[N(T)]}}, cells={TOP})
        ctx = {CTX(TUP, m): x for m, x in zip(MEMBERS, (1, 77, 7.5, 8.5, ('addr', 'C', 0)))}

        def withctx(v):
            v.update(ctx)
            return v
        R_('Ld_Ctx', 1, 1, [withctx(v) for v in nv], lambda v: {'cells': {(TOP, m): ctx[CTX(TUP, m)] for m in MEMBERS}, 'nulls': {TOP: 0}}, cells={TOP})
        cl = ('root', 'this', 'context_', ('i', TUP), 'val_')
        R_('Upd_Ctx', 0, 1, nv, lambda v: {'locs': {cl + (m,): v[V(T, m)] for m in MEMBERS}}, extra_ok=lambda l: l[:4] == cl[:4])
        # tuples
        bits = self.bits()
        isval = lambda l: l[:3] == ('d', TVALS, ('i', IDX))
        isbits = lambda l: l[:3] == TUPLE + ('null_mask_',)
        tv = []
        for n in (0, 1):
            for b in (0, 0xff, 8, 0xf7, 0x100000000):
                v = self.base()
                v[N(T)] = n
                v[bits] = b
                for m, x in zip(MEMBERS, (1, 55, 5.5, 6.5, ('addr', 'TS', 0))):
                    v[('s', ('init', tcell(m)))] = x
                tv.append(v)
        full = lambda v: v[bits]
        R_('Ld_Tup', 1, 2, tv, lambda v: {'cells': {(TOP, m): v[('s', ('init', tcell(m)))] for m in MEMBERS}, 'nulls': {TOP: full(v) >> IDX & 1}, 'when': 'for NULL mask %x' % full(v)}, cells={TOP})
        bl = bits[1][1]
        R_('St_Tup_Null', 0, 2, tv, lambda v: {'locs': {bl: full(v) | 1 << IDX}}, extra_ok=isbits)

        def st_tup(v):
            w = {'locs': {bl: full(v) | 1 << IDX if v[N(T)] else full(v) & ~(1 << IDX)}, 'when': 'for %s' % ('NULL' if v[N(T)] else 'a value')}
            if not v[N(T)]:
                w['locs'].update({tcell(m): v[V(T, m)] for m in MEMBERS})
            return w
        for op in ('St_Tup_i', 'St_Tup_f', 'St_Tup_d', 'St_Tup_b'):
            R_(op, 0, 2, tv, st_tup, extra_ok=lambda l: isbits(l) or isval(l))
        sv = []
        for v0 in tv:
            for n in (0, 1):
                v = dict(v0)
                v[N(T - 1)] = n
                v[N(T)] = 0
                v[V(T, 'i')] = 9
                sv.append(v)
        dst = ('d', ('s', ('init', tcell('p'))))

        def st_s(v):
            nu = v[N(T - 1)]
            w = {'locs': {bl: full(v) | 1 << IDX if nu else full(v) & ~(1 << IDX)}, 'when': 'for %s' % ('NULL' if nu else 'a string')}
            if not nu:
                w['effects'] = [('strncpy', ('addr', 'TS', 0), ('addr', 'P6', 0), 9)]
                w['nul9'] = True
            return w
        R_('St_Tup_s', -1, 2, sv, st_s, extra_ok=lambda l: isbits(l) or l[0] == 'd' and 'val_' in repr(l[1]))
        self.terminator('St_Tup_s', [v for v in sv if not v[N(T - 1)]], ('addr', 'TS', 9), lambda l: l[0] == 'd')
        # output
        S = ('addr', 'OUT', 0)

        def ov(m, xs):
            out = []
            for n in (0, 1):
                for x in xs:
                    v = self.base()
                    v[V(T, m)] = x
                    v[N(T)] = n
                    v[CTX(TUP, 'p')] = S
                    out.append(v)
            return out

        def pr(m, f):
            def g(v):
                if v[N(T)]:
                    return {'effects': [(S, 'text', 'NULL')], 'when': 'for NULL'}
                return {'effects': f(v[V(T, m)]), 'when': 'for %s' % (v[V(T, m)],)}
            return g
        R_('Putc', 0, 2, ov('i', [1]), lambda v: {'effects': [(S, 'text', chr(IDX))]})
        R_('Print_i', 0, 1, ov('i', INTS), pr('i', lambda x: [(S, 'value', x, 0, ())]))
        R_('Print_f', 0, 1, ov('f', [1.5, -2.0]), pr('f', lambda x: [(S, 'value', x, 0, (('precision', 8),))]))
        R_('Print_d', 0, 1, ov('d', [1.5, -2.0]), pr('d', lambda x: [(S, 'value', x, 0, (('precision', 16),))]))
        R_('Print_b', 0, 1, ov('b', [0, 1]), pr('b', lambda x: [(S, 'text', 'TRUE' if x else 'FALSE')]))
        R_('Print_s', 0, 1, ov('p', ['', 'abc']), pr('p', lambda x: [(S, 'text', '"' + x + '"')]))
        dates = [y << 9 | m << 5 | d for y in (2020, 1, 9999, 333) for m in (1, 12) for d in (1, 31)] + [-(44 << 9) | 3 << 5 | 15]

        def pdate(x):
            f = (('adj', 'internal'), ('fill', 48))
            return [(S, 'value', x >> 9, 4 if x >> 9 > 0 else 5, f), (S, 'text', '-'), (S, 'value', x >> 5 & 15, 2, f), (S, 'text', '-'), (S, 'value', x & 31, 2, f)]
        R_('Print_date', 0, 1, ov('i', dates), pr('i', pdate))
        R_('Print_datetime', 0, 1, ov('i', [0, 1234567890, -5]), pr('i', lambda x: [(S, 'value', ('datetime', x), 0, ())]))
        # memory
        mems = {'Ld_i8': ('int8_t', 'i', [0, 127, -128]), 'Ld_i16': ('int16_t', 'i', [0, 32767, -32768]), 'Ld_i32': ('int32_t', 'i', [5, -2 ** 31]),
                'Ld_i64': ('int64_t', 'i', [2 ** 62, -1]), 'Ld_f': ('float', 'f', [1.5]), 'Ld_d': ('double', 'd', [2.5])}
        for op, (ty, m, xs) in mems.items():
            names = [('s', ('init', ('d', ('op', 'as:' + a, V(T, 'p'))))) for a in CNAMES[ty]]
            vals = []
            for x in xs:
                v = self.base()
                for nme in names:
                    v[nme] = x
                vals.append(v)
            R_(op, 0, 0, vals, lambda v, m=m, names=names: {'cells': {(T, m): v[names[0]]}, 'nulls': {T: v[N(T)]}}, cells={T})
        names = [('s', ('init', ('d', ('op', 'as:' + a, V(T, 'p'))))) for a in CNAMES['uint8_t']]
        vals = []
        for x in (0, 1, 2, 3, 4, 255, 253):
            v = self.base()
            for nme in names:
                v[nme] = x
            vals.append(v)
        R_('Ld_b', 0, 1, vals, lambda v: {'cells': {(T, 'b'): int(bool(v[names[0]] & OPER[0]))}, 'nulls': {T: v[N(T)]}}, cells={T})
        lv = []
        for n in (0, 1):
            v = self.base()
            v[V(T, 'i')] = 12
            v[N(T)] = 0
            v[N(T - 1)] = n
            lv.append(v)
        MA = ('addr', M_, 0)
        R_('Ld_s', -1, 0, lv, lambda v: {'cells': {(T - 1, 'p'): MA}, 'nulls': {T - 1: v[N(T - 1)]}, 'effects': [('strncpy', MA, ('addr', 'P6', 0), 12)],
                                         'locs': {('root', 'pmem'): ('addr', M_, 13)}}, cells={T - 1}, memory_ok=True)
        self.terminator('Ld_s', lv, ('addr', M_, 12), lambda l: l[:2] == M_)
        for op, (ty, m, x, y) in {'St_i8': ('int8_t', 'i', 300, 44), 'St_i16': ('int16_t', 'i', 70000, 4464), 'St_i32': ('int32_t', 'i', 2 ** 33 + 5, 5),
                                  'St_i64': ('int64_t', 'i', 2 ** 33 + 5, 2 ** 33 + 5), 'St_f': ('float', 'f', 1.5, 1.5), 'St_d': ('double', 'd', 2.5, 2.5)}.items():
            vals = []
            for n in (0, 1):
                v = self.base()
                v[V(T, m)] = x
                v[N(T)] = n
                vals.append(v)
            R_(op, -2, 0, vals, lambda v, ty=ty, y=y: {'mem': [] if v[N(T)] else [(ty, ('addr', 'P6', 0), y)], 'when': 'for NULL' if v[N(T)] else 'for a value'},
               memw=True)
        vals = []
        for n in (0, 1):
            v = self.base()
            v[V(T, 'i')] = 12
            v[N(T)] = 0
            v[N(T - 1)] = n
            vals.append(v)
        R_('St_s', -3, 0, vals, lambda v: {'effects': [] if v[N(T - 1)] else [('strncpy', ('addr', 'P5', 0), ('addr', 'P6', 0), 12)], 'when': 'for NULL' if v[N(T - 1)] else 'for a string'})
        # selection
        vals = []
        for cn in (0, 1):
            for cb in (0, 1):
                for n1 in (0, 1):
                    for n2 in (0, 1):
                        v = self.base()
                        v[V(T - 2, 'b')] = cb
                        v[N(T - 2)], v[N(T - 1)], v[N(T)] = cn, n1, n2
                        vals.append(v)

        def sel(v):
            if v[N(T - 2)]:
                return {'nulls': {T - 2: 1}, 'when': 'for a NULL condition'}
            src = T - 1 if v[V(T - 2, 'b')] else T
            return {'nulls': {T - 2: v[N(src)]}, 'cells': {(T - 2, m): v[V(src, m)] for m in MEMBERS} if not v[N(src)] else {},
                    'when': 'for a condition that is %s' % ('TRUE' if src == T - 1 else 'FALSE')}
        R_('Sel', -2, 0, vals, sel, cells={T - 2})
        self.concat()
        self.store_bit()
        self.stop()

    def bits(self):
        """Symbol of the NULL mask of the accessed tuple."""
        E = self.E
        syms_ = set()
        st = self.vm.init()
        for o, s in states_of(self.vm, 'Ld_Tup', st):
            for l, v in s.mem.items():
                if l[:2] == TUPLE[:2] and 'null_mask_' in l and isinstance(v, tuple) and v[0] == 's':
                    syms_.add(v)
        if len(syms_) != 1:
            raise AnalysisBroken('the NULL mask of a tuple is not one machine word: %s' % (syms_,))
        return syms_.pop()

    def terminator(self, op, vals, at, where):
        """Every string that is copied gets its terminating NUL byte."""
        for o, s in states_of(self.vm, op, self.vm.init()):
            if o != 'next':
                continue
            for v in vals:
                ev = self.k.valuation(v)
                if not consistent(self.E, s, ev):
                    continue
                self.c.ob(1, True)
                ok = False
                for l, x in s.mem.items():
                    if not where(l) or not isinstance(l[-1], tuple) or l[-1][0] != 'i':
                        continue
                    try:
                        a = addr_of(l, ev)
                    except Undef:
                        continue
                    if a == at and x == 0:
                        ok = True
                if not ok:
                    self.k.viol(op, 'terminator', 'the copied string is not terminated right behind its declared length', s)
                    return

    def concat(self):
        """Cat_s on strings of all small lengths with symbolic characters."""
        E, T = self.E, TOP - 1
        op = 'Cat_s'
        if op not in self.vm.labels:
            return
        for nl, nr in itertools.product((0, 1), repeat=2):
            for a in range(0, 4):
                for b in range(0, 4):
                    st = self.vm.init()
                    for k, base, n in ((T - 1, 'L', a), (T, 'R', b)):
                        st.mem[('root', 'V', ('i', k), 'val_', 'p')] = ('p', ('root', base, ('i', 0)))
                        for i in range(n):
                            ch = ('s', ('chr', base, i))
                            st.mem[('root', base, ('i', i))] = ch
                            st.dom[ch] = frozenset((65 + i, 200 - i))
                        st.mem[('root', base, ('i', n))] = 0
                    st.mem[('root', 'N', ('i', T - 1))] = nl
                    st.mem[('root', 'N', ('i', T))] = nr
                    states = states_of(self.vm, op, st)
                    if not states:
                        self.k.viol(op, 'undefined', 'the concatenation has no result')
                        return
                    for o, s in states:
                        self.c.ob(1, True)
                        if s.mem.get(('root', 'this', 'top_')) != TOP - 1:
                            self.k.viol(op, 'delta', 'the concatenation does not pop exactly one operand', s)
                            return
                        p = cell(E, s, T - 1, 'p')
                        n = nul(E, s, T - 1)
                        want = [('L', i) for i in range(a) if not nl] + [('R', i) for i in range(b) if not nr]
                        if nl and nr:
                            if n != 1:
                                self.k.viol(op, 'null', 'the concatenation of two NULLs is not NULL', s)
                                return
                            continue
                        if n != 0:
                            self.k.viol(op, 'null', 'a concatenation with a non-NULL operand is NULL', s)
                            return
                        if not (isinstance(p, tuple) and p[0] == 'p'):
                            self.k.viol(op, 'result', 'the result is not a string', s)
                            return
                        got = []
                        i = p[1][-1][1]
                        while True:
                            x = s.mem.get(p[1][:-1] + (('i', i),))
                            if x == 0:
                                break
                            if not (isinstance(x, tuple) and x[0] == 's' and x[1][0] == 'chr'):
                                got.append('?')
                                break
                            got.append(x[1][1:])
                            i += 1
                        if got != want:
                            self.k.viol(op, 'result', 'the concatenation of strings of length %d and %d consists of %s but must be %s' % (a, b, got, want), s)
                            return
                        pm = s.mem.get(('root', 'pmem'))
                        if p[1][:2] == M_ and (not isinstance(pm, tuple) or pm[0] != 'p' or pm[1][-1][1] <= i):
                            self.k.viol(op, 'memory', 'the memory of the result can be reused by the next operation', s)
                            return
                        for l, v in s.mem.items():
                            if l[:2] in (('root', 'L'), ('root', 'R')) and v != st.mem.get(l) and not (l in st.mem and isinstance(v, int) and v != 0):
                                self.k.viol(op, 'frame', 'the concatenation changes an operand', s)
                                return

    def store_bit(self):
        E, T = self.E, TOP - 1
        op = 'St_b'
        vals = []
        al = [('s', ('init', ('d', ('op', 'as:' + a, V(T - 1, 'p'))))) for a in CNAMES['uint8_t']]
        for n in (0, 1):
            for b in (0, 1):
                for byte in (0, 255, 0x55, 0xaa, 3, 1 << OPER[0]):
                    v = self.base()
                    v[V(T, 'b')] = b
                    v[N(T)] = n
                    for a in al:
                        v[a] = byte
                    vals.append(v)

        def want(v):
            if v[N(T)]:
                return {'mem': [], 'when': 'for NULL'}
            x = v[al[0]]
            m = 1 << OPER[0]
            return {'mem': [('uint8_t', ('addr', 'P6', 0), x | m if v[V(T, 'b')] else x & ~m)], 'when': 'for the value %d stored into the byte %#x' % (v[V(T, 'b')], x)}
        self.run(op, -2, 1, vals, want, memw=True)

    def stop(self):
        op = 'Stop'
        st = self.vm.init()
        for o, s in states_of(self.vm, op, st):
            self.c.ob(1, True)
            if s.mem.get(('root', 'this', 'top_')) != 0 or s.mem.get(('root', 'this', 'op_')) != ('p', ('root', 'this', 'ops', ('i', 0))):
                self.k.viol(op, 'reset', 'the machine is not reset for its next evaluation', s)
            if [x for x in s.mon if x[0] == 'pop_back'] != [('pop_back', ('root', 'this', 'ops'))]:
                self.k.viol(op, 'sequence', 'the terminating instruction is not removed from the program exactly once', s)


def addr_of(l, ev):
    off = 0
    while isinstance(l[-1], tuple) and l[-1][0] == 'i':
        off += ev(norm_as(l[-1][1])) if not isinstance(l[-1][1], int) else l[-1][1]
        l = l[:-1]
    if l[0] == 'd':
        b = ev(norm_as(l[1]))
        return b[:2] + (b[2] + off,)
    return ('addr', l, off)


@check('K01', 'The elementary operations of the interpreter compute their documented function')
def k01(c):
    k = K01(c)
    vm = k.vm
    P = vm.P
    codes = P.enums.get('m::StackMachine::Opcode')
    if not codes:
        raise AnalysisBroken('anchor vanished: enumeration of the instructions')
    names = [n for n, v in sorted(codes.items(), key=lambda x: x[1]) if n != 'Last']
    # dispatch table: entry i is the label of instruction i
    table = None
    for n in walk(vm.fn.body):
        if n['k'] == 'decl':
            for v in n['vs']:
                ls = [x['n'] for x in walk(v.get('init') or {}) if x['k'] == 'addrlabel']
                if len(ls) > 20 and v.get('init', {}).get('k') == 'ilist':
                    table = [next(y['n'] for y in walk(x) if y['k'] == 'addrlabel') for x in v['init']['es']]
    if table is None:
        raise AnalysisBroken('anchor vanished: dispatch table')
    c.ob(len(names), table == names)
    if table != names:
        i = next((i for i, (a, b) in enumerate(itertools.zip_longest(table, names)) if a != b), 0)
        c.viol('K01:dispatch', vm.fn.loc(), 'entry %d of the dispatch table is %s but instruction %d is %s' % (i, (table + [None])[i], i, names[i] if i < len(names) else None))
    # the emitters: declared stack effect and operands
    delta, nargs = {}, {}
    for n in names:
        fs = [f for f in P.funcs.values() if f.q == 'm::StackMachine::emit_' + n and f.body is not None]
        if fs:
            emitter(c, vm, n, codes[n], fs[0], delta, nargs)
    c.floor('emitters', len(delta), 90)
    for n in names:
        if n in REF and n in delta and n in vm.labels:
            r = REF[n]
            if delta[n] != 1 - len(r.ins) or nargs[n] != r.nops:
                c.viol('K01:%s:declared' % n, vm.fn.loc(), 'instruction %s is declared with stack effect %+d and %d operands; it combines %d values and has %d operands' % (n, delta[n], nargs[n], len(r.ins), r.nops))
            k.check_pure(n, r, 1 - len(r.ins), r.nops)
    Special(k).all(None, None)
    for op, d, na in SPECIAL:
        if op in delta and (delta[op], nargs[op]) != (d, na):
            c.viol('K01:%s:declared' % op, vm.fn.loc(), 'instruction %s is declared with stack effect %+d and %d operands but changes the stack by %+d and reads %d operands' % (op, delta[op], nargs[op], d, na))
    c.floor('instructions', len([n for n in names if n in vm.labels]), 100)
    un = [n for n in names if n not in REF and n not in {x[0] for x in SPECIAL}]
    for n in un:
        c.viol('K01:%s:undocumented' % n, vm.fn.loc(), 'instruction %s has no reference semantics' % n)
    c.use(vm.E)
    c.rule('every instruction segment is interpreted abstractly from symbolic operands; its transfer function (result, NULL bit, stack height, consumed operands, written memory, output) must equal the reference transfer function on all NULL combinations and all sampled valuations of its terms;')
    c.rule('dispatch table order equals the instruction numbering; every emitter appends exactly its instruction and operands and accounts for the stack height.')
    c.assumptions += ['division by zero and the overflowing quotient have no defined result', 'floating-point comparisons are compared on ordered values (no NaN)']


SPECIAL = [('Stop', 0, 0), ('Stop_Z', 0, 0), ('Stop_NZ', 0, 0), ('Stop_False', 0, 0), ('Stop_True', 0, 0), ('Pop', -1, 0), ('Push_Null', 1, 0), ('Dup', 1, 0),
           ('Ld_Ctx', 1, 1), ('Upd_Ctx', 0, 1), ('Ld_Tup', 1, 2), ('St_Tup_Null', 0, 2), ('St_Tup_i', 0, 2), ('St_Tup_f', 0, 2), ('St_Tup_d', 0, 2),
           ('St_Tup_s', -1, 2), ('St_Tup_b', 0, 2), ('Putc', 0, 2), ('Print_i', 0, 1), ('Print_f', 0, 1), ('Print_d', 0, 1), ('Print_s', 0, 1), ('Print_b', 0, 1),
           ('Print_date', 0, 1), ('Print_datetime', 0, 1), ('Ld_i8', 0, 0), ('Ld_i16', 0, 0), ('Ld_i32', 0, 0), ('Ld_i64', 0, 0), ('Ld_f', 0, 0), ('Ld_d', 0, 0),
           ('Ld_s', -1, 0), ('Ld_b', 0, 1), ('St_i8', -2, 0), ('St_i16', -2, 0), ('St_i32', -2, 0), ('St_i64', -2, 0), ('St_f', -2, 0), ('St_d', -2, 0),
           ('St_s', -3, 0), ('St_b', -2, 1), ('Cat_s', -1, 0), ('Sel', -2, 0)]


def emitter(c, vm, name, code, fn, delta, nargs):
    """emit_X appends X and its operands and accounts for the stack height."""
    E = Engine(vm.P)
    E.keep_terms = True
    concrete.install(E)
    E.insist_hook = lambda e, s, f: None
    st = State()
    this = ('root', 'this')
    st.mem[this + ('ops', '__n')] = 0
    res = []
    for cur, req in ((5, 5), (5, 50), (9, 10)):
        s0 = st.copy()
        s0.mem[this + ('current_stack_size_',)] = cur
        s0.mem[this + ('required_stack_size_',)] = req
        args = []
        for i, p in enumerate(fn.params):
            args.append(('val', 100 + i))
        rets, _ = E.run(fn, s0, this, args)
        if len(rets) != 1:
            c.viol('K01:emit_%s' % name, fn.loc(), 'the emitter has %d outcomes' % len(rets))
            return
        s = rets[0][1]
        n = s.mem.get(this + ('ops', '__n'))
        got = [s.mem.get(this + ('ops', ('i', i))) for i in range(n)]
        want = [code] + [100 + i for i in range(len(fn.params))]
        if got != want:
            c.viol('K01:emit_%s' % name, fn.loc(), 'the emitter appends %s but must append %s' % (got, want))
            return
        d = s.mem.get(this + ('current_stack_size_',)) - cur
        rq = s.mem.get(this + ('required_stack_size_',))
        if rq != max(req, cur + d):
            c.viol('K01:emit_%s:stack' % name, fn.loc(), 'the required stack size becomes %s from %s with height %s after the instruction' % (rq, req, cur + d))
            return
        res.append(d)
        c.ob(3, True)
    if len(set(res)) != 1:
        c.viol('K01:emit_%s:stack' % name, fn.loc(), 'the declared stack effect is not constant')
        return
    delta[name] = res[0]
    nargs[name] = len(fn.params)
