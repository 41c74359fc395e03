"""Comparison of the guarded terms the abstract interpreter derives with reference functions.

A final abstract state is a guard (facts about symbols) plus terms for the locations that changed.  Two transfer
functions are equal when they agree under every valuation of a sample that includes the corner values of each type
(identity testing of terms; nothing of the analysed program is run)."""
import itertools
import struct

NULL = ('null',)


class Undef(Exception):
    """The term has no value under the valuation (unknown function, division by zero)."""


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def wrap(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >> (w - 1):
        v -= 1 << w
    return v


def addr(loc, ev):
    """Address of a location as (base, byte offset) when its last step is an index."""
    off = 0
    while loc and isinstance(loc[-1], tuple) and loc[-1][0] == 'i':
        o = ev(loc[-1][1])
        off += o
        loc = loc[:-1]
    return ('addr', loc, off)


class Eval:
    def __init__(self, E, val, funs=None, default=None):
        self.E, self.val, self.funs, self.default = E, val, funs or {}, default

    def __call__(self, t):
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, (int, float)):
            return t
        if t == NULL:
            return NULL
        if not isinstance(t, tuple):
            raise Undef(repr(t))
        if t[0] == 's':
            if t in self.val:
                return self.val[t]
            if self.default is not None:
                v = self.default(t)
                if v is not None:
                    self.val[t] = v
                    return v
            raise Undef(repr(t))
        if t[0] == 'p':
            return addr(t[1], self)
        if t[0] == 'str':
            return t[1]
        if t[0] == 'op':
            return self.app(t[1], t[2:])
        raise Undef(repr(t)[:200])

    def app(self, op, args):
        if op in ('&&', '||'):
            a = self(args[0])
            if op == '&&':
                return int(bool(a) and bool(self(args[1])))
            return int(bool(a) or bool(self(args[1])))
        vs = [self(a) for a in args]
        if op.startswith('as:'):
            return vs[0]
        if op.startswith('cast:'):
            T = op[5:]
            if T == 'float':
                return f32(float(vs[0]))
            if T == 'double':
                return float(vs[0])
            if isinstance(vs[0], float):
                if vs[0] != vs[0] or abs(vs[0]) > 2 ** 62:
                    raise Undef('float to int')
                v = int(vs[0])
            else:
                v = vs[0]
            w = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'short': (16, 1), 'char': (8, 1),
                 'signed char': (8, 1), 'unsigned char': (8, 0), 'unsigned short': (16, 0)}
            n = T.replace('const ', '')
            n = {'int64_t': 'long', 'uint64_t': 'unsigned long', 'int32_t': 'int', 'uint32_t': 'unsigned int', 'std::size_t': 'unsigned long', 'size_t': 'unsigned long'}.get(n, n)
            if n in w:
                return wrap(v, *w[n])
            raise Undef(op)
        if op in self.funs:
            return self.funs[op](*vs)
        if op == '==':
            return int(vs[0] == vs[1])
        if op == '!':
            return int(not self.truth(vs[0]))
        if op == 'bool':
            return int(self.truth(vs[0]))
        if op in ('+', '-') and len(vs) == 2 and isinstance(vs[0], tuple) and vs[0][:1] == ('addr',) and isinstance(vs[1], int):
            return vs[0][:2] + (vs[0][2] + (vs[1] if op == '+' else -vs[1]),)
        if op == '+' and isinstance(vs[1], tuple) and vs[1][:1] == ('addr',) and isinstance(vs[0], int):
            return vs[1][:2] + (vs[1][2] + vs[0],)
        if all(isinstance(v, (int, float)) for v in vs):
            if op in ('/', '%') and vs[1] == 0:
                raise Undef('division by zero')
            if op in ('<<', '>>') and not 0 <= vs[1] < 64:
                raise Undef('shift')
            r = self.E.arith(op, tuple(vs))
            if r is not None:
                return r
        raise Undef(op)

    @staticmethod
    def truth(v):
        return (bool(v) or isinstance(v, str)) and v != NULL and v != ('none',)


def consistent(E, st, ev, only=None):
    """Is the guard of the state true under the valuation?  Facts about symbols without a value are ignored."""
    for k, d in st.dom.items():
        if only is not None and not only(k):
            continue
        try:
            v = ev(k)
        except Undef:
            continue
        if k[0] == 's' or (k[0] == 'op'):
            if v not in d and not (isinstance(v, int) and k[0] == 'op' and int(bool(v)) in d and d <= {0, 1}):
                return False
    return True


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b or (a != a and b != b)
        return False
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a, 64, 1) == wrap(b, 64, 1)
    return a == b
