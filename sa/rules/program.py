"""E01: programs that the expression compiler of the stack machine emits.

StackMachine::emit(...) is interpreted on typed expression trees; the abstract machine then holds the program (opcodes and context).  The
program is given a meaning over a domain of values per type, NULL included, by the definitions of the instructions (that the instructions
mean this is K01) and compared with the value of the expression in SQL.
"""
import itertools
import os
import struct
from fractions import Fraction as Q

from .astmodel import Ty, shape
from .exprs import bi, const, des, fn, un
from .interp import AGG, Interp, agg
from ..containers import elems, make, node, seq
from ..engine import NULL, VOID, State
from ..ir import AnalysisBroken
from ..registry import check

I4, I8, F4, F8, B, C5, V9 = Ty.int(4, 1), Ty.int(8, 1), Ty.float(32, 1), Ty.float(64, 1), Ty.boolean(1), Ty.char(5, 0, 1), Ty.char(9, 1, 1)
D2, D3, D0 = Ty.decimal(8, 2, 1), Ty.decimal(9, 3, 1), Ty.decimal(6, 0, 1)
DA, DT = Ty.date(1), Ty.datetime(1)
NUMS = (I4, I8, F4, F8, D2, D3, D0)
NAMES = {I4: 'int4', I8: 'int8', F4: 'float', F8: 'double', D2: 'decimal(8,2)', D3: 'decimal(9,3)', D0: 'decimal(6,0)', B: 'bool', C5: 'char(5)', V9: 'varchar(9)', DA: 'date', DT: 'datetime'}
TUS = ('src/backend/StackMachine.cpp', 'src/catalog/Type.cpp', 'src/IR/CNF.cpp', 'src/parse/AST.cpp', 'src/parse/ASTPrinter.cpp', 'src/catalog/Schema.cpp', 'src/backend/Interpreter.cpp')
OPS = {'+': 'TK_PLUS', '-': 'TK_MINUS', '*': 'TK_ASTERISK', '/': 'TK_SLASH', '%': 'TK_PERCENT', '=': 'TK_EQUAL', '!=': 'TK_BANG_EQUAL', '<': 'TK_LESS', '<=': 'TK_LESS_EQUAL', '>': 'TK_GREATER',
       '>=': 'TK_GREATER_EQUAL', '..': 'TK_DOTDOT', 'LIKE': 'TK_Like', 'AND': 'TK_And', 'OR': 'TK_Or'}
ARITH, COMP = ('+', '-', '*', '/', '%'), ('=', '!=', '<', '<=', '>', '>=')


def rep(ty):
    """The representation of values of the type on the stack."""
    if ty[0] == 'Boolean':
        return 'b'
    if ty[0] == 'CharacterSequence':
        return 'p'
    if ty[0] == 'Numeric' and ty[2] == 'N_Float':
        return 'f' if ty[3] == 32 else 'd'
    return 'i'


def isfloat(ty):
    return ty[0] == 'Numeric' and ty[2] == 'N_Float'


def isdec(ty):
    return ty[0] == 'Numeric' and ty[2] == 'N_Decimal'


def join(a, b):
    """The common type of two numeric types."""
    k = max((a[2], b[2]), key=('N_Int', 'N_Float', 'N_Decimal').index)
    bits = lambda t: 8 * t[3] if t[2] == 'N_Int' else t[3] if t[2] == 'N_Float' else -(-t[3] * 3321928094887362 // 10 ** 15)
    n = max(bits(a), bits(b))
    v = max(a[1], b[1])
    if k == 'N_Int':
        return Ty.int(n // 8, v)
    if k == 'N_Float':
        return Ty.float(n, v)
    return Ty.decimal(int(n / 3.321928094887362), max(a[4], b[4]), v)


def typeof(t):
    return t[3] if t[0] == 'des' else t[-1]


def binary(op, a, b):
    ta, tb = typeof(a), typeof(b)
    if op in ARITH:
        ty = join(ta, tb)
    elif op == '..':
        ty = Ty.char(ta[2] + tb[2], 0, 1)
    else:
        ty = B
    return bi(OPS[op], op, a, b, ty)


def trunc(x):
    return int(x)


# ---- values of expressions: exact, None for NULL, UNDEF where SQL gives no value
class Undef(Exception):
    pass


def conv(v, ty):
    """A number as a value of the numeric type."""
    if isdec(ty):
        return Q(trunc(v * 10 ** ty[4]), 10 ** ty[4])
    if isfloat(ty):
        return Q(v)
    return Q(trunc(v))


def ev(t, row):
    k = t[0]
    if k == 'des':
        return row[t[1], t[2]]
    if k == 'const':
        return constval(t)
    if k == 'fn' and t[3] in AGG:
        return row[None, shape(t)]
    if k == 'fn':
        a = ev(t[2][0], row)
        if t[3] == 'ISNULL':
            return a is None
        return None if a is None else Q(trunc(a))
    if k == 'un':
        a = ev(t[3], row)
        if a is None:
            return None
        return {'-': lambda: -a, '+': lambda: a, 'NOT': lambda: not a, '~': lambda: not a if isinstance(a, bool) else Q(~int(a))}[t[2]]()
    op = t[2]
    a, b = ev(t[3], row), ev(t[4], row)
    if op == 'AND':
        return False if a is False or b is False else None if a is None or b is None else True
    if op == 'OR':
        return True if a is True or b is True else None if a is None or b is None else False
    if a is None or b is None:
        return None
    if op == '..':
        return a + b
    if op == 'LIKE':
        import re
        return re.fullmatch(''.join('.*' if c == '%' else '.' if c == '_' else re.escape(c) for c in b), a, re.S) is not None
    if op in COMP:
        if typeof(t[3])[0] == 'Numeric':
            ty = join(typeof(t[3]), typeof(t[4]))
            a, b = conv(a, ty), conv(b, ty)
        return {'=': a == b, '!=': a != b}[op] if op in ('=', '!=') else {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
    ty = t[-1]
    if op in ('/', '%') and b == 0:
        raise Undef
    if op == '%':
        if isdec(ty):
            a, b = conv(a, ty), conv(b, ty)
            if b == 0:
                raise Undef
        r = abs(a) % abs(b)
        return conv(-r if a < 0 else r, ty)
    if isdec(ty):
        a, b = (conv(x, ty) if isfloat(typeof(s)) else x for x, s in ((a, t[3]), (b, t[4])))
        if op == '/' and b == 0:
            raise Undef
    return conv({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op](), ty)


def constval(t):
    tk, x, ty = t[1:4]
    if tk == 'TK_Null':
        return None
    if tk in ('TK_True', 'TK_False'):
        return tk == 'TK_True'
    if tk == 'TK_STRING_LITERAL':
        return x[1:-1]
    if tk == 'TK_DATE':
        y, m, d = (int(p) for p in x[2:-1].rsplit('-', 2))
        return Q(y << 9 | m << 5 | d)
    return Q(x) if tk == 'TK_DEC_FLOAT' else Q(int(x, {'TK_DEC_INT': 10, 'TK_OCT_INT': 8, 'TK_HEX_INT': 16}[tk]))


def encode(v, ty):
    """The representation of the value v on the stack."""
    if v is None:
        return None
    if isdec(ty):
        return int(v * 10 ** ty[4])
    if isfloat(ty):
        return float(v)
    return int(v) if isinstance(v, Q) else v


DOM = {I4: [Q(-7), Q(0), Q(2), Q(5), None], I8: [Q(-3), Q(0), Q(1), Q(16777217), None], F4: [Q(-3, 2), Q(1, 4), Q(16777216), None], F8: [Q(-5, 2), Q(1, 4), Q(5), None], D2: [Q(-3, 2), Q(1, 4), Q(2), Q(725, 100), None],
       D3: [Q(-2125, 1000), Q(251, 1000), Q(2), None], D0: [Q(-4), Q(0), Q(2), Q(9), None], B: [True, False, None], C5: ['a', 'ab', 'abcde', '', None], V9: ['ab', 'b', 'a\nb', 'abcdefghi', None], DA: [Q(1035301), Q(1035400), None],
       DT: [Q(-5), Q(10 ** 9), None]}


class Bad(Exception):
    pass


# ---- meaning of a program
BIN = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'And': lambda a, b: a & b, 'Or': lambda a, b: a | b, 'Xor': lambda a, b: a ^ b}
CMP = {'Eq': lambda a, b: a == b, 'NE': lambda a, b: a != b, 'LT': lambda a, b: a < b, 'LE': lambda a, b: a <= b, 'GT': lambda a, b: a > b, 'GE': lambda a, b: a >= b}
ARITY = {}


def meaning(prog, ctx, tuples, like):
    """The stack after the program and its maximal height.  tuples: id -> list of (kind, value | None)."""
    st = []
    top = 0

    def pop(k=None):
        if not st:
            raise Bad('pops from an empty stack')
        x = st.pop()
        if k and x[0] not in (k, None):
            raise Bad('takes a value of kind %s as one of kind %s' % (x[0], k))
        return x
    for op, args in prog:
        n, _, k = op.rpartition('_')
        if op == 'Ld_Tup':
            tid, i = args
            if tid not in tuples or i >= len(tuples[tid]):
                raise Bad('loads value %d of tuple %d, which does not exist' % (i, tid))
            st.append(tuples[tid][i])
        elif op == 'Ld_Ctx':
            if args[0] >= len(ctx):
                raise Bad('loads value %d of a context of %d' % (args[0], len(ctx)))
            st.append(ctx[args[0]])
        elif op == 'Push_Null':
            st.append((None, None))
        elif op == 'Pop':
            pop()
        elif op == 'Dup':
            x = pop()
            st += [x, x]
        elif op == 'Is_Null':
            st.append(('b', pop()[1] is None))
        elif n == 'Minus':
            x = pop(k)
            st.append((k, None if x[1] is None else -x[1]))
        elif op == 'Neg_i':
            x = pop('i')
            st.append(('i', None if x[1] is None else ~x[1]))
        elif op == 'Not_b':
            x = pop('b')
            st.append(('b', None if x[1] is None else not x[1]))
        elif op in ('And_b', 'Or_b'):
            b, a = pop('b')[1], pop('b')[1]
            d = op == 'Or_b'
            st.append(('b', d if a is d or b is d else None if a is None or b is None else not d))
        elif n in BIN and k in 'ifd':
            b, a = pop(k), pop(k)
            st.append((k, None if a[1] is None or b[1] is None else BIN[n](a[1], b[1])))
        elif n in ('Div', 'Mod'):
            b, a = pop(k), pop(k)
            if a[1] is None or b[1] is None:
                st.append((k, None))
            elif b[1] == 0:
                raise Undef
            elif n == 'Mod':
                r = abs(a[1]) % abs(b[1])
                st.append((k, -r if a[1] < 0 else r))
            else:
                st.append((k, trunc(Q(a[1]) / Q(b[1])) if k == 'i' else a[1] / b[1]))
        elif n in CMP:
            kk = {'s': 'p'}.get(k, k)
            b, a = pop(kk), pop(kk)
            st.append(('b', None if a[1] is None or b[1] is None else CMP[n](a[1], b[1])))
        elif n == 'Cmp':
            kk = {'s': 'p'}.get(k, k)
            b, a = pop(kk), pop(kk)
            st.append(('i', None if a[1] is None or b[1] is None else (a[1] > b[1]) - (a[1] < b[1])))
        elif op == 'Cat_s':
            b, a = pop('p'), pop('p')
            st.append(('p', None if a[1] is None or b[1] is None else a[1] + b[1]))
        elif op in ('Like_const', 'Like_expr'):
            b, a = pop(None if op == 'Like_const' else 'p'), pop('p')
            st.append(('b', None if a[1] is None or b[1] is None else like(a[1], b[1], op == 'Like_const')))
        elif n == 'Cast_i':
            x = pop(k)
            st.append(('i', None if x[1] is None else trunc(x[1])))
        elif n in ('Cast_f', 'Cast_d'):
            x = pop(k)
            st.append((n[-1], None if x[1] is None else float(x[1]) if n[-1] == 'd' else struct.unpack('f', struct.pack('f', x[1]))[0]))
        elif op == 'Sel':
            f, t, c = pop(), pop(), pop('b')
            st.append((t[0], None) if c[1] is None else t if c[1] else f)
        elif op == 'St_Tup_Null':
            tid, i = args
            st.append(('stored', ('n', tid, i, None)))
            st.pop()
            tuples.setdefault('stored', []).append((tid, i, None, None))
        elif n == 'St_Tup':
            tid, i = args
            if k == 's':
                ln = pop('i')
                x = pop('p')
                st.append(x)
                tuples.setdefault('stored', []).append((tid, i, 'p', None if x[1] is None else x[1][:ln[1]]))
            else:
                x = pop(k)
                st.append(x)
                tuples.setdefault('stored', []).append((tid, i, k, x[1]))
        elif n == 'Print':
            x = pop({'s': 'p', 'date': 'i', 'datetime': 'i'}.get(k, k))
            st.append(x)
            tuples.setdefault('printed', []).append((k, args[0], x[1]))
        else:
            raise AnalysisBroken('E01: instruction %s in the program of an expression' % op)
        top = max(top, len(st))
    return st, top


class Programs(Interp):
    def __init__(self, c, pid='E01', tus=TUS):
        super().__init__(c, pid, tus)
        P, E, M = self.P, self.E, self.E.models
        S = 'm::StackMachine'
        E.model_pred[:] = [x for x in E.model_pred if x[1] != self.emit]
        for q in ('ctor:' + S, S + '::operator()', 'm::Interpreter::compile_load'):
            M.pop(q)
        self.OP = P.enums.get(S + '::Opcode')
        if not self.OP:
            raise AnalysisBroken('anchor vanished: the opcodes of the stack machine')
        self.names = {v: k for k, v in self.OP.items()}
        fs = [(f['n'], (P.recs[S]['types'][f['t']].get('canon') or P.recs[S]['types'][f['t']]['s'])) for f in P.recs[S]['fields']]
        one = lambda pred, what: next((n for n, t in fs if pred(t)), None) or self.anchor(what)
        self.fops = one(lambda t: 'vector' in t and 'Opcode' in t, 'the opcodes of a stack machine')
        self.fctx = one(lambda t: 'vector' in t and 'Value' in t, 'the context of a stack machine')
        self.fin = one(lambda t: t.endswith('Schema'), 'the schema of a stack machine')
        ints = [n for n, t in fs if t in ('int64_t', 'long', 'std::int64_t')]
        self.fints = ints
        self.freq = next((n for n in ints if 'req' in n), None) or self.anchor('the required size of the stack')
        M['std::unordered_map::at'] = self.opcode
        for q in ('strtoll', 'std::strtoll'):
            M[q] = self.strto(int)
        for q in ('strtod', 'std::strtod'):
            M[q] = self.strto(float)
        M['__errno_location'] = lambda E, e, st, fr: [(('p', ('root', 'errno')), st)]
        M['sscanf'] = M['std::sscanf'] = self.sscanf
        M['m::interpret'] = self.interpret
        M['m::pattern_to_regex'] = lambda E, e, st, fr: [(('re', self.S.text(v, None, s)), s) for v, s in self.K.val(e['args'][0], st, fr)]
        import math
        for n in ('ceil', 'floor', 'round', 'trunc'):
            M['std::' + n] = M[n] = self.math(getattr(math, n, round))
        for n in ('c_str', 'data'):
            M['std::basic_string::' + n] = self.cstr
        M['std::operator+'] = self.plus
        M['std::basic_string::operator='] = self.assign
        M['std::operator=='] = self.streq(0)
        M['std::operator!='] = self.streq(1)
        M['std::basic_string::operator+='] = M['std::basic_string::append'] = self.append
        E.static_as_local = True      # constants
        self.arity()

    def streq(self, neg):
        def h(E, e, st, fr):
            out = []
            if len(e['args']) != 2 or not any('basic_string' in ((fr.fn.ty(a) or {}).get('rec') or '') for a in e['args']):
                return None
            for a, s in self.K.val(e['args'][0], st, fr):
                for b, s2 in self.K.val(e['args'][1], s, fr):
                    x, y = (self.S.text(v, fr.fn.ty(e['args'][i]), s2) for i, v in enumerate((a, b)))
                    if not isinstance(x, str) or not isinstance(y, str):
                        return None
                    out.append((int((x == y) != bool(neg)), s2))
            return out
        return h

    def math(self, f):
        def h(E, e, st, fr):
            out = []
            for v, s in self.K.val(e['args'][0], st, fr):
                if not isinstance(v, (int, float)):
                    return None
                out.append((float(f(v)), s))
            return out
        return h

    def cstr(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            x = s.mem.get(l)
            if not (isinstance(x, tuple) and x[:1] == ('str',)):
                return None
            out.append((x, s))
        return out

    def assign(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            for b, s2 in self.K.val(e['args'][0], s, fr):
                y = self.S.text(b, fr.fn.ty(e['args'][0]), s2)
                if not isinstance(y, str):
                    return None
                out.append((('lref', l), s2.set(l, ('str', y))))
        return out

    def plus(self, E, e, st, fr):
        out = []
        for a, s in self.K.val(e['args'][0], st, fr):
            for b, s2 in self.K.val(e['args'][1], s, fr):
                x, y = (self.S.text(v, fr.fn.ty(e['args'][i]), s2) for i, v in enumerate((a, b)))
                if not isinstance(x, str) or not isinstance(y, str):
                    return None
                out.append((('str', x + y), s2))
        return out

    def append(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            for b, s2 in self.K.val(e['args'][0], s, fr):
                x, y = self.S.text(s2.mem.get(l), None, s2), self.S.text(b, fr.fn.ty(e['args'][0]), s2)
                if not isinstance(x, str) or not isinstance(y, str):
                    return None
                out.append((('lref', l), s2.set(l, ('str', x + y))))
        return out

    def anchor(self, what):
        raise AnalysisBroken('anchor vanished: ' + what)

    def arity(self):
        """Number of operand bytes of every instruction, from its emitter."""
        self.args = {}
        for op in self.OP:
            fs = self.P.by_q.get('m::StackMachine::emit_' + op, ())
            if fs:
                self.args[op] = len(fs[0].params)
        if len(self.args) < 60:
            raise AnalysisBroken('anchor vanished: the emitters of the stack machine (%d)' % len(self.args))

    def opcode(self, E, e, st, fr):
        t = (fr.fn.ty(e['obj']) or {})
        if 'Opcode' not in (t.get('canon') or t.get('s') or ''):
            return None
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            x = self.S.text(v, None, s)
            if not isinstance(x, str):
                raise AnalysisBroken('%s: unknown name of an opcode %s' % (fr.fn.loc(e), v))
            if x in self.OP and x != 'Last':
                out.append((self.OP[x], s))
            else:
                self.viol('opcode', 'looks up an instruction %s that does not exist' % x, e, fr)
        return out

    def strto(self, f):
        def h(E, e, st, fr):
            out = []
            for v, s in self.K.val(e['args'][0], st, fr):
                x = self.S.text(v, None, s)
                if not isinstance(x, str):
                    raise AnalysisBroken('%s: unknown text of a number' % fr.fn.loc(e))
                base = [(10, s)]
                if f is int:
                    base = self.K.val(e['args'][2], s, fr)
                for b, s2 in base:
                    import re
                    if f is int:
                        d = {8: '[0-7]', 10: '[0-9]', 16: '(?:0[xX](?=[0-9a-fA-F]))?[0-9a-fA-F]'}.get(b)
                        if d is None:
                            raise AnalysisBroken('%s: numbers in base %s' % (fr.fn.loc(e), b))
                        m = re.match('[+-]?%s+' % d if b != 16 else '[+-]?(0[xX])?[0-9a-fA-F]+', x)
                        out.append((int(m.group(0), b) if m else 0, s2))
                    else:
                        m = re.match(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', x)
                        out.append((float(m.group(0)) if m else 0.0, s2))
            return out
        return h

    def sscanf(self, E, e, st, fr):
        import re
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            for f, s2 in self.K.val(e['args'][1], s, fr):
                x, f = self.S.text(v, None, s2), self.S.text(f, None, s2)
                m = re.match(re.escape(f).replace('%d', r'\s*([+-]?\d+)'), x)
                n = f.count('%d')
                if m is None:
                    out.append((0, s2))
                    continue
                ps = [s2]
                for i in range(n):
                    ps = [s4.set(p[1], int(m.group(i + 1))) for s3 in ps for p, s4 in E.ev(e['args'][2 + i], s3, fr)]
                out += [(n, s3) for s3 in ps]
        return out

    def interpret(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            x = self.S.text(v, None, s)
            if not isinstance(x, str) or '\\' in x:
                raise AnalysisBroken('%s: unknown literal' % fr.fn.loc(e))
            out.append((('str', x[1:-1]), s))
        return out

    def start(self):
        from ..streams import start
        return start(State().withmon(()))

    # ---- machines
    def schema(self, st, L, entries):
        L = L + (self.fent,)
        st = make(st, L, range(len(entries)))
        for i, (p, n, ty) in enumerate(entries):
            v, st = self.ty(st, ty)
            x = node(L, i)
            st = st.set(x + ('id', 'prefix'), NULL if p is None else ('str', p)).set(x + ('id', 'name'), ('str', n)).set(x + ('type',), v).set(x + ('constraints',), 0).set(x + ('__alive',), 1)
        return st

    def machine(self, st, entries, ctx=0, height=0):
        L = ('root', 'sm')
        st = st.set(L + ('__cls',), ('str', 'm::StackMachine')).set(L + ('__alive',), 1)
        st = make(make(st, L + (self.fops,), ()), L + (self.fctx,), range(ctx))
        for i in range(ctx):
            st = st.set(node(L + (self.fctx,), i), ('value', 'i', 90000 + i))
        st = self.caches(st)
        for n in self.fints:
            st = st.set(L + (n,), height)
        return self.schema(st, L + (self.fin,), entries), L

    def program(self, s, L):
        """(instructions, context) of the machine at L."""
        raw = [s.mem.get(x) for x in elems(s, L + (self.fops,))]
        if not all(isinstance(x, int) for x in raw):
            raise AnalysisBroken('E01: unknown program %s' % (raw,))
        prog, i = [], 0
        while i < len(raw):
            op = self.names.get(raw[i])
            if op is None or op not in self.args:
                raise Bad('is no sequence of instructions')
            n = self.args[op]
            if i + 1 + n > len(raw):
                raise Bad('ends within an instruction')
            prog.append((op, tuple(raw[i + 1:i + 1 + n])))
            i += 1 + n
        ctx = []
        for x in elems(s, L + (self.fctx,)):
            v = s.mem.get(x)
            if not (isinstance(v, tuple) and v[:1] == ('value',)):
                raise AnalysisBroken('E01: unknown constant %s' % (v,))
            ctx.append((v[1], self.plain(s, v[2])))
        return prog, ctx

    def plain(self, s, v):
        if isinstance(v, tuple) and v[0] == 'str':
            return v[1]
        if isinstance(v, tuple) and v[0] == 'p':
            x = s.mem.get(v[1])
            return x if isinstance(x, tuple) and x[:1] == ('re',) else v
        return v

    def caches(self, st):
        """Caches of compiled patterns are empty."""
        n = 0
        for q, v in self.P.vars.items():
            t = v['types'][v['v']['t']]
            t = t.get('canon') or t.get('s') or ''
            if 'unordered_map' in t and 'basic_regex' in t:
                st = make(st, ('g', q), ())
                n += 1
        return st


def agrees(got, val, ty, approx):
    """got: (kind, value) on the stack; val: the value of the expression."""
    k, x = got
    if val is None or x is None:
        return val is None and x is None
    if k != rep(ty):
        return False
    if isinstance(val, (bool, str)):
        return x == val if isinstance(val, str) else bool(x) == val
    y = Q(x) / 10 ** ty[4] if isdec(ty) else Q(x)
    if isfloat(ty):
        return abs(y - val) <= Q(1, 10 ** 5) * max(1, abs(val))
    return abs(y - val) <= (Q(1, 10 ** ty[4]) if approx and isdec(ty) else 0)


# ---- scenarios
def col(ty, tab='t'):
    return des(tab, NAMES[ty].split('(')[0] + ''.join(c for c in NAMES[ty] if c.isdigit()), ty)


def num(x, ty=None):
    return const('TK_DEC_FLOAT' if '.' in x else 'TK_DEC_INT', x, ty or (F8 if '.' in x else I4))


def columns(t, out):
    if t[0] == 'des':
        out.setdefault((t[1], t[2]), t[3])
    elif t[0] == 'un':
        columns(t[3], out)
    elif t[0] == 'bin':
        columns(t[3], out)
        columns(t[4], out)
    elif t[0] == 'fn' and t[3] in AGG:
        out.setdefault((None, shape(t)), t[-1])
    elif t[0] == 'fn':
        for x in t[2]:
            columns(x, out)
    return out


def inexact(t):
    if t[0] == 'bin':
        ts = [typeof(t[3]), typeof(t[4])]
        return inexact(t[3]) or inexact(t[4]) or any(map(isdec, ts)) and (t[2] in ('*', '/') or any(map(isfloat, ts)))
    return t[0] == 'un' and inexact(t[3])


def trees(full):
    out = []
    # every operator on every pair of numeric types
    for a, b in itertools.product(NUMS, NUMS):
        for op in ARITH + COMP:
            if op == '%' and isfloat(join(a, b)):
                continue        # below
            out.append(binary(op, col(a), col(b, 'u')))
    # constants
    K = [num('3'), num('2.5'), num('0.25'), const('TK_OCT_INT', '017', I4), const('TK_HEX_INT', '0x1F', I4), num('5000000000', I8)]
    for a in NUMS:
        for k in K[:3]:
            for op in ('+', '*', '/', '<', '='):
                out += [binary(op, col(a), k), binary(op, k, col(a))]
    out += K + [const('TK_True', 'TRUE', B), const('TK_False', 'FALSE', B), const('TK_Null', 'NULL', Ty.NONE), const('TK_STRING_LITERAL', '"ab"', C5), const('TK_DATE', "d'2022-11-27'", DA), const('TK_DATE', "d'0044-03-15'", DA)]
    # unary operators
    for a in NUMS:
        out += [un('TK_MINUS', '-', col(a), a), un('TK_PLUS', '+', col(a), a)]
    out += [un('TK_TILDE', '~', col(I4), I4), un('TK_TILDE', '~', col(I8), I8), un('TK_TILDE', '~', col(B), B), un('TK_Not', 'NOT', col(B), B)]
    out += [fn('ISNULL', col(t), ty=B) for t in (I4, F4, D2, B, C5, DA)]
    out += [fn('INT', col(t), ty=I4) for t in (I4, I8, F4, F8, B)]
    # truth values
    b2 = des('u', 'flag', B)
    out += [binary(op, col(B), b2) for op in ('AND', 'OR', '=', '!=')]
    # strings and dates
    for a, b in itertools.product((C5, V9), (C5, V9)):
        out += [binary(op, col(a), col(b, 'u')) for op in COMP + ('..', 'LIKE')]
    out += [binary('LIKE', col(C5), const('TK_STRING_LITERAL', '"a%"', C5)), binary('LIKE', col(V9), const('TK_STRING_LITERAL', '"_b"', C5)), binary('=', col(C5), const('TK_STRING_LITERAL', '"ab"', C5))]
    pat = lambda x: binary('LIKE', col(V9), const('TK_STRING_LITERAL', '"%s"' % x, C5))
    out += [binary('OR', pat('_b'), pat('%i')), binary('AND', pat('a%'), binary('OR', pat('%b'), pat('a%i')))]
    for t in (DA, DT):
        out += [binary(op, col(t), col(t, 'u')) for op in COMP]
    out.append(binary('<', col(DA), const('TK_DATE', "d'2022-11-27'", DA)))
    # nesting
    i, l, f, g, d, e, b = col(I4), col(I8), col(F8), col(F4), col(D2), col(D3), col(B)
    out += [binary('-', i, binary('-', l, num('2'))), binary('-', binary('-', i, l), num('2')), binary('*', binary('+', i, l), binary('-', i, num('3'))), binary('+', binary('*', i, l), binary('*', f, g)),
            binary('<', binary('+', i, f), binary('-', d, l)), binary('=', binary('+', d, e), binary('+', e, d)), un('TK_MINUS', '-', binary('+', i, d), D2), binary('+', un('TK_MINUS', '-', f, F8), i),
            binary('AND', binary('<', i, l), binary('OR', b, binary('=', f, num('2.5')))), binary('OR', un('TK_Not', 'NOT', binary('=', i, l), B), binary('AND', b, b2)),
            un('TK_Not', 'NOT', fn('ISNULL', binary('+', i, l), ty=B), B), binary('=', fn('ISNULL', i, ty=B), b), binary('/', binary('-', i, l), num('3')), binary('%', binary('-', i, l), num('3')),
            binary('=', binary('..', col(C5), col(V9)), const('TK_STRING_LITERAL', '"aab"', C5)), binary('LIKE', binary('..', col(C5), col(V9)), const('TK_STRING_LITERAL', '"%b"', C5)), binary('AND', binary('AND', b, b2), b), binary('>', d, num('1.5'))]
    return out


def cnfs():
    i, l, b, b2 = col(I4), col(I8), col(B), des('u', 'flag', B)
    lt, eq = binary('<', i, l), binary('=', i, num('2'))
    return [[[(0, b)]], [[(1, b)]], [[(0, lt), (1, b)]], [[(1, lt), (0, b), (1, eq)]], [[(0, b)], [(1, b2)]], [[(0, lt), (0, b)], [(1, eq), (0, b2)], [(1, b)]], [[(1, b), (1, b2)], [(1, lt)]], [[(0, b)], [(0, b2)], [(0, eq)]]]


def evcnf(cs, row):
    def fold(vs, d):
        return d if any(v is d for v in vs) else None if any(v is None for v in vs) else not d
    neg = lambda v, n: v if v is None or not n else not v
    return fold([fold([neg(ev(t, row), n) for n, t in c], True) for c in cs], False)


def rows(cols, limit=700):
    cs = list(cols.items())
    doms = [DOM[ty] for _, ty in cs]
    n = 1
    for x in doms:
        n *= len(x)
    for k, vs in enumerate(itertools.product(*doms)):
        if n <= limit or k % (n // limit + 1) == 0:
            yield {c: v for (c, _), v in zip(cs, vs)}


@check('E01', 'Compiled expressions and casts compute the value of the expression')
def e01(c):
    W = Programs(c)
    P = W.P
    full = os.environ.get('VERIF_TIER') == 'thorough'
    em = {}
    for f in P.by_q.get('m::StackMachine::emit', ()):
        if f.body is None:
            continue
        ts = [((f.types[p['t']].get('rec') or f.types[p['t']]['s']).split('<')[0].replace('const ', '').strip(' &')) for p in f.params]
        em[tuple(ts)] = f
    key = lambda first, n: next((f for ts, f in em.items() if ts[0] == first and len(ts) == n[0] and (len(ts) < 2 or ('Schema' in ts[1]) == (n[1] == 'schema') and ('vector' in ts[1]) == (n[1] == 'schemas'))), None)
    one = {'plain': key('m::ast::Expr', (2, 'id')), 'schema': key('m::ast::Expr', (3, 'schema')), 'schemas': key('m::ast::Expr', (3, 'schemas')), 'cnf': key('m::cnf::CNF', (2, 'id')), 'cnfs': key('m::cnf::CNF', (3, 'schemas'))}
    for k, f in one.items():
        if f is None:
            raise AnalysisBroken('anchor vanished: StackMachine::emit (%s): %s' % (k, list(em)))
    obs = progs = 0

    def like(x, p, isre):
        import re
        if isre and (p[0] != 're' or not isinstance(p[1], str)):
            raise AnalysisBroken('E01: unknown pattern %s' % (p,))
        p = p[1] if isre else p
        return re.fullmatch(''.join('.*' if ch == '%' else '.' if ch == '_' else re.escape(ch) for ch in p), x, re.S) is not None

    def method(n, k):
        fs = [f for f in P.by_q.get('m::StackMachine::' + n, ()) if f.body is not None and len(f.params) == k]
        if len(fs) != 1:
            raise AnalysisBroken('anchor vanished: StackMachine::%s with %d parameters' % (n, k))
        return fs[0]
    cast, store, out = method('emit_Cast', 2), method('emit_St_Tup', 3), method('emit_Print', 2)

    def effect(what, show, s, L, ty):
        """Storing and printing take the value on the top of the stack."""
        nonlocal obs
        try:
            prog, ctx = W.program(s, L)
            for v in DOM.get(ty, [None]):
                obs += 1
                tup = {1: [(rep(ty), encode(v, ty))]}
                st, top = meaning([('Ld_Tup', (1, 0))] + prog, ctx, tup, like)
                if what == 'store':
                    got = tup.get('stored')
                    want = (2, 3, None if ty == Ty.NONE else rep(ty), encode(v, ty) if not isinstance(v, str) else v[:ty[2]])
                    if got != [want]:
                        W.viol('store', 'the program to %s stores %s instead of %s' % (show, got, [want]))
                        return
                else:
                    got = tup.get('printed')
                    k = 'date' if ty == DA else 'datetime' if ty == DT else {'p': 's'}.get(rep(ty), rep(ty))
                    if not got or len(got) != 1 or got[0][1] != 2 or got[0][2] != encode(v, ty) or got[0][0] != k and v is not None:
                        W.viol('print', 'the program to %s prints %s' % (show, got))
                        return
        except Bad as x:
            W.viol('kind', 'the program to %s %s' % (show, x))

    def judge(show, s, L, val, ty, cols, tuples, approx, pre=None):
        """val: row -> value"""
        nonlocal obs
        try:
            prog, ctx = W.program(s, L)
        except Bad as x:
            W.viol('program', 'the program of %s %s' % (show, x))
            return
        n = 0
        for row in rows(cols):
            try:
                w = val(row)
            except Undef:
                continue
            n += 1
            tup = {tid: [(rep(t), encode(row.get(c_), t)) for c_, t in es] for tid, es in tuples.items()}
            at = ', '.join('%s.%s = %s' % (c_[0], c_[1], 'NULL' if v is None else v if isinstance(v, (str, bool)) else float(v)) for c_, v in row.items())
            try:
                st, top = meaning(prog if pre is None else [('Ld_Tup', (1, 0))] + prog, ctx, tup, like)
            except Undef:
                W.viol('undefined', '%s divides by zero with %s' % (show, at))
                return
            except Bad as x:
                W.viol('kind', 'the program of %s %s' % (show, x))
                return
            if len(st) != 1:
                W.viol('stack', 'the program of %s leaves %d values on the stack' % (show, len(st)))
                return
            req = s.mem.get(L + (W.freq,))
            if not isinstance(req, int) or req < top:
                W.viol('height', 'the program of %s needs a stack of %s but claims %s' % (show, top, req))
                return
            if not agrees(st[0], w, ty, approx):
                W.viol('value', '%s is %s instead of %s with %s' % (show, 'NULL' if st[0][1] is None else st[0], 'NULL' if w is None else w if isinstance(w, (bool, str)) else '%s %s' % (rep(ty), encode(w, ty)), at))
                return
        obs += n

    def run(f, args, st, L, show):
        nonlocal progs
        progs += 1
        W.op, W.show = W.op if W.op in ('constants', 'modulo') else 'emit', show
        rets, thrown = W.run(f, st, L, args)
        if thrown:
            W.viol('throws', 'compiling %s throws %s' % (show, ', '.join(sorted({t.typ for t, _ in thrown}))))
        if not rets and not thrown:
            W.viol('none', 'compiling %s does not succeed' % show)
        return [s for _, s in rets]

    def entries(cols):
        return [(c_[0], c_[1], t) for c_, t in cols.items()]

    def describe(t, cols):
        return '%s over %s' % (shape(t), ', '.join('%s %s' % (shape(des(a, b)), NAMES[ty]) for (a, b), ty in cols.items()))

    def emit(t, mode='plain', cnf=None, ctx=0, have=None):
        """Compiles the tree, or the condition, in one of the ways the stack machine offers."""
        W.n = 0
        cols = {}
        for x in [t] if cnf is None else [x for cl in cnf for _, x in cl]:
            columns(x, cols)
        show = describe(t, cols) if cnf is None else '%s over %s' % (' AND '.join('(%s)' % ' OR '.join(('NOT ' if n else '') + shape(x) for n, x in cl) for cl in cnf), ', '.join('%s.%s' % c_ for c_ in cols))
        ty = B if cnf is not None else typeof(t)
        val = (lambda row: evcnf(cnf, row)) if cnf is not None else lambda row: ev(t, row)
        st = W.start()
        if have is not None:        # the value of the expression is an attribute already
            cols = dict(have)
            at = list(have)[-1]
            val = lambda row: row[at]
            show += ', which is already computed'
        es = list(cols.items())
        if mode in ('schemas', 'cnfs'):
            show += ', in several schemas'
            groups = [[x for x in es if x[0][0] == 'u'], [((None, 'other'), I4)], [x for x in es if x[0][0] != 'u']]
            ids = (4, 2, 1)
            st, L = W.machine(st, [])
            S, I = ('root', 'schemas'), ('root', 'ids')
            st = make(make(st, S, range(3)), I, range(3))
            for i, g in enumerate(groups):
                st = W.schema(st, node(S, i), entries(dict(g))).set(node(I, i), ids[i])
            args, tuples = [('ref', S), ('ref', I)], {i: g for i, g in zip(ids, groups)}
        elif mode == 'schema':
            show += ', over another schema'
            es = [((None, 'other'), I4)] + es
            st, L = W.machine(st, [(None, 'mine', I4)])
            st = W.schema(st, ('root', 'schema'), entries(dict(es)))
            args, tuples = [('ref', ('root', 'schema')), ('val', 3)], {3: es}
        else:
            es = es + [((None, 'other'), I4)]
            st, L = W.machine(st, entries(dict(es)), ctx)
            args, tuples = [('val', 1)], {1: es}
        if cnf is not None:
            X = ('root', 'cnf')
            st = W.cnf(st, X, cnf)
        else:
            X, st = W.tree(st, t)
        for s in run(one[mode], [('ref', X)] + args, st, L, show):
            judge(show, s, L, val, ty, cols, tuples, cnf is None and inexact(t))

    every = trees(full)
    for t in every:
        emit(t)
    i, l, f, d, b = col(I4), col(I8, 'u'), col(F8), col(D2, 'u'), col(B)
    for t in every if full else [t for k, t in enumerate(every) if t[0] == 'bin' and k % 23 == 0] + [binary('-', i, l), binary('-', l, i), binary('<', f, d), binary('%', l, num('3'))]:
        emit(t, 'schemas')
        emit(t, 'schema')
    for cs in cnfs():
        emit(None, 'cnf', cs)
        emit(None, 'cnfs', cs)
    # results of other operators
    s, k = agg('SUM', i), agg('COUNT')
    for t in (s, k, binary('>', s, num('2')), binary('-', k, s)):
        emit(t)
        emit(t, 'schemas')
    for t in (binary('+', i, l), binary('AND', b, binary('<', i, l)), fn('ISNULL', i, ty=B)):
        emit(t, have={**columns(t, {}), (None, shape(t)): typeof(t)})
    # many constants
    emit(binary('+', i, num('5')), ctx=200)
    W.op = 'constants'
    emit(binary('+', i, num('5')), ctx=300)
    W.op = 'modulo'
    for x, y in itertools.product(NUMS, NUMS):
        if isfloat(join(x, y)):
            emit(binary('%', col(x), col(y, 'u')))
    W.op = ''
    # casts
    for a, z in itertools.product(NUMS + (B, C5, V9), NUMS + (C5, V9)):
        if (rep(a) == 'p') != (rep(z) == 'p') or a == B and z not in (I4, I8):
            continue
        show = 'a cast from %s to %s' % (NAMES[a], NAMES[z])
        at = ('t', 'x')
        st = W.start()
        st, L = W.machine(st, [], height=1)
        vz, st = W.ty(st, z)
        va, st = W.ty(st, a)
        for s in run(cast, [('val', vz), ('val', va)], st, L, show):
            if rep(a) == 'p':
                judge(show, s, L, lambda row: row[at], z, {at: a}, {1: [(at, a)]}, False, pre=at)
            else:
                judge(show, s, L, lambda row: None if row[at] is None else conv(Q(row[at]), z), z, {at: a}, {1: [(at, a)]}, False, pre=at)
    # stores and output
    for ty in NUMS + (B, C5, V9, DA, DT, Ty.NONE):
        at = ('t', 'x')
        for what, fun, args in (('store', store, [('val', 2), ('val', 3)]), ('print', out, [('val', 2)])):
            show = '%s a value of type %s' % (what, NAMES.get(ty, 'NULL'))
            st = W.start()
            st, L = W.machine(st, [], height=1)
            v, st = W.ty(st, ty)
            for s in run(fun, args + [('val', v)], st, L, show):
                effect(what, show, s, L, ty)
    c.use(W.E)
    c.ob(progs)
    c.stat('programs', progs)
    c.stat('values compared', obs)
    c.floor('programs', progs, 700)
    c.floor('values compared', obs, 9000)
    c.rule('the program emitted for an expression, given the meaning of its instructions (K01), leaves exactly one value on the stack, which equals the value of the expression in SQL for every combination of values of '
           'its attributes from a set per type that contains NULL, negative numbers, zero, fractions and empty strings; no instruction takes a value of another representation; the claimed stack size suffices')
