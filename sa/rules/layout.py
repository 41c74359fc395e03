"""S02: data layouts and the programs that load and store tuples in them."""
import itertools
import os

from .astmodel import Ty
from .catalog import field
from .program import Bad, Programs, TUS, rep
from ..containers import elems, make, node, seq
from ..engine import NULL, VOID, State
from ..ir import AnalysisBroken
from ..registry import check

DL = 'm::storage::DataLayout'
FTUS = ('src/storage/DataLayoutFactory.cpp', 'src/storage/DataLayout.cpp')


class Layouts(Programs):
    def __init__(self, c):
        super().__init__(c, 'S02', TUS + FTUS)
        M = self.E.models
        for n in ('sort', 'stable_sort'):
            M['std::' + n] = self.psort(M['std::' + n])
        M['std::iota'] = self.piota(M['std::iota'])
        self.opts = {q.rsplit('::', 1)[1]: q for q in self.P.vars if 'options::' in q and 'torage' in str(self.P.vars[q].get('file', 'torage'))}
        for n in ('std::make_unique', 'std::make_unique_for_overwrite'):
            M[n] = self.newarray(M.get(n))
        M['std::unique_ptr::operator[]'] = self.psub

        for n in ('max', 'min', 'lowest'):
            M['std::numeric_limits::' + n] = self.limit(n)
        P = self.P
        vec = lambda T: 'vector<' in (T.get('canon') or T['s'])
        num = lambda T: not vec(T) and not T.get('ptr') and (T.get('canon') or T['s']).split('::')[-1] in ('unsigned long', 'size_t', 'uint64_t', 'size_type')
        I, L = DL + '::INode', DL + '::Leaf'
        self.fkids = field(P, I, vec, 'the children of an inner node')
        self.fnum = field(P, I, num, 'the number of tuples of an inner node')
        self.fltype = field(P, L, lambda T: T.get('ptr'), 'the type of a leaf')
        self.flidx = field(P, L, num, 'the index of a leaf')
        self.froot = field(P, DL, lambda T: (T.get('rec') or '').endswith('INode'), 'the root of a data layout')
        ch = next((q for q in P.recs if q.startswith(I + '::') and {'offset_in_bits', 'stride_in_bits'} <= {f['n'] for f in P.recs[q]['fields']}), None)
        if ch is None:
            raise AnalysisBroken('anchor vanished: the children of an inner node')
        self.fptr = next(f['n'] for f in P.recs[ch]['fields'] if f['n'] not in ('offset_in_bits', 'stride_in_bits'))

    def limit(self, which):
        def h(E, e, st, fr):
            t = fr.fn.ty(e) or {}
            w, sg = t.get('w'), int(bool(t.get('sg')))
            if not w:
                return None
            return [(((1 << w - sg) - 1) if which == 'max' else -(1 << w - 1) if sg else 0, st)]
        return h

    def start(self):
        st = super().start()
        for q, v in self.P.vars.items():
            i = v['v'].get('init') or {}
            if i.get('k') == 'float' and 'const' in v['types'][v['v']['t']]['s']:
                st = st.set(('g', q), i['v'])
        return st

    def read(self, s, L):
        """The layout below the inner node at L: ('inode', n, [(child, offset, stride)]); leaves are ('leaf', type, index)."""
        g = lambda l: s.mem.get(l)
        kids = []
        if seq(s, L + (self.fkids,)) is None or not isinstance(g(L + (self.fnum,)), int):
            raise AnalysisBroken('S02: unknown data layout')
        for x in elems(s, L + (self.fkids,)):
            p, o, w = g(x + (self.fptr,)), g(x + ('offset_in_bits',)), g(x + ('stride_in_bits',))
            if not (isinstance(p, tuple) and p[:1] == ('p',) and isinstance(o, int) and isinstance(w, int)):
                raise AnalysisBroken('S02: unknown child of a data layout: %s, offset %s, stride %s' % (p, o, w))
            k = p[1]
            if seq(s, k + (self.fkids,)) is not None:
                kids.append((self.read(s, k), o, w))
            else:
                t, i = g(k + (self.fltype,)), g(k + (self.flidx,))
                if not (isinstance(t, tuple) and t[:1] == ('p',) and isinstance(i, int)) or self.tkey(s, t[1]) is None:
                    raise AnalysisBroken('S02: unknown leaf of a data layout')
                kids.append((('leaf', self.tkey(s, t[1]), i), o, w))
        return ('inode', g(L + (self.fnum,)), kids)

    def layout(self, st, L, tree):
        """Builds the layout below the inner node at L."""
        I, Lf = DL + '::INode', DL + '::Leaf'
        st = st.set(L + ('__cls',), ('str', I)).set(L + ('__alive',), 1).set(L + (self.fnum,), tree[1])
        K = L + (self.fkids,)
        st = make(st, K, range(len(tree[2])))
        for i, (t, o, w) in enumerate(tree[2]):
            x, k = node(K, i), ('root', 'lay', L, i)
            st = st.set(x + (self.fptr,), ('p', k)).set(x + ('offset_in_bits',), o).set(x + ('stride_in_bits',), w).set(x + ('__alive',), 1)
            if t[0] == 'inode':
                st = self.layout(st, k, t)
            else:
                v, st = self.ty(st, t[1])
                st = st.set(k + ('__cls',), ('str', Lf)).set(k + ('__alive',), 1).set(k + (self.fltype,), v).set(k + (self.flidx,), t[2])
        return st

    def newarray(self, base):
        def h(E, e, st, fr):
            t = (fr.fn.ty(e) or {}).get('s', '')
            if '[]' not in t:
                return base(E, e, st, fr) if base else None
            out = []
            for n, s in E.ev(e['args'][0], st, fr):
                if not isinstance(n, int):
                    raise AnalysisBroken('%s: array of unknown length' % fr.fn.loc(e))
                loc = E.new_loc(('h', E.site(e, fr)), s)
                s = s.set(loc + ('__alive',), 1).set(loc + ('__size',), n)
                for k in range(n):
                    s = s.set(loc + (('i', k),), 0)
                out.append((('p', loc + (('i', 0),)), s))
            return out
        return h

    def psub(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['obj'], st, fr):
            for k, s2 in E.ev(e['args'][0], s, fr):
                if not (isinstance(v, tuple) and v[:1] == ('p',) and isinstance(v[1][-1], tuple) and v[1][-1][0] == 'i' and isinstance(k, int)):
                    raise AnalysisBroken('%s: unknown element of an array' % fr.fn.loc(e))
                l = v[1][:-1] + (('i', v[1][-1][1] + k),)
                n = s2.mem.get(v[1][:-1] + ('__size',))
                if isinstance(n, int) and not 0 <= l[-1][1] < n:
                    self.viol('bounds', 'reads element %d of an array of %d' % (l[-1][1], n), e, fr)
                    continue
                out.append((('lref', l), s2))
        return out

    def span(self, e, st, fr):
        """[(locations of the elements between two pointers, st)]"""
        out = []
        for a, s in self.K.val(e['args'][0], st, fr):
            for b, s2 in self.K.val(e['args'][1], s, fr):
                if not all(isinstance(x, tuple) and x[:1] == ('p',) and isinstance(x[1][-1], tuple) and x[1][-1][:1] == ('i',) for x in (a, b)) or a[1][:-1] != b[1][:-1]:
                    print('SPAN', a, b)
                    return None
                out.append(([a[1][:-1] + (('i', k),) for k in range(a[1][-1][1], b[1][-1][1])], s2))
        return out

    def psort(self, base):
        def h(E, e, st, fr):
            if (fr.fn.ty(e['args'][0]) or {}).get('rec'):
                return base(E, e, st, fr)
            r = self.span(e, st, fr)
            if r is None:
                return None
            out = []
            for ls, s in r:
                for f, s in E.ev(e['args'][2], s, fr):
                    box = [s]
                    tmp = ('root', '__sort')

                    def less(x, y):
                        s1 = box[0].set(tmp + ('x',), x).set(tmp + ('y',), y)
                        r = E.call_value(f, e, s1, fr, [('ref', tmp + ('x',)), ('ref', tmp + ('y',))])
                        if len(r) != 1 or not isinstance(r[0][0], int):
                            raise AnalysisBroken('%s: the comparator has no known result' % fr.fn.loc(e))
                        box[0] = r[0][1]
                        return r[0][0]
                    out_ = []
                    for l in ls:
                        v = s.mem.get(l)
                        k = len(out_)
                        while k and less(v, out_[k - 1]):
                            k -= 1
                        out_.insert(k, v)
                    s = box[0]
                    for l, v in zip(ls, out_):
                        s = s.set(l, v)
                    out.append((VOID, s))
            return out
        return h

    def piota(self, base):
        def h(E, e, st, fr):
            if (fr.fn.ty(e['args'][0]) or {}).get('rec'):
                return base(E, e, st, fr)
            r = self.span(e, st, fr)
            if r is None:
                return None
            out = []
            for ls, s in r:
                for v, s in E.ev(e['args'][2], s, fr):
                    for k, l in enumerate(ls):
                        s = s.set(l, v + k)
                    out.append((VOID, s))
            return out
        return h



# ---- memory
class Memory:
    """Bits at addresses (in bits)."""

    def __init__(self, seed):
        self.bits = {}
        self.seed = seed
        self.reads = set()
        self.writes = set()

    def bit(self, a):
        b = self.bits.get(a)
        if b is None:
            b = self.bits[a] = (a * 2654435761 + self.seed * 40503 + (a >> 5) * 97) >> 7 & 1
        return b

    def get(self, a, n):
        return sum(self.bit(a + i) << i for i in range(n))

    def put(self, a, n, v):
        for i in range(n):
            self.bits[a + i] = v >> i & 1


def sint(x, n):
    return x - (1 << n) if x >> (n - 1) & 1 else x


def bits(v, ty):
    """Bits that represent the value v of type ty in memory, least significant first as a number, and how many they are."""
    import struct
    n = size(ty)
    k = rep(ty)
    if k == 'b':
        return int(v), 1
    if k == 'p':
        return int.from_bytes(v.encode('latin-1').ljust(n // 8, b'\0')[:n // 8], 'little'), n
    if k in 'fd':
        return int.from_bytes(struct.pack('<' + k, v), 'little'), n
    return v & (1 << n) - 1, n


def size(ty):
    """Size of a value in bits."""
    if ty[0] == 'Boolean':
        return 1
    if ty[0] == 'CharacterSequence':
        return 8 * (ty[2] + ty[3])
    if ty[0] == 'Bitmap':
        return ty[2]
    if ty[0] == 'Date':
        return 32
    if ty[0] == 'DateTime':
        return 64
    if ty[2] == 'N_Int':
        return 8 * ty[3]
    if ty[2] == 'N_Float':
        return ty[3]
    n = 1
    while n < -(-ty[3] * 3321928094887362 // 10 ** 15) or n < 8:
        n *= 2
    return n


def alignment(ty):
    return 1 if ty[0] == 'Boolean' else 8 if ty[0] == 'CharacterSequence' else size(ty)


class Vm:
    """The instructions of the stack machine on a memory, by their definitions (that the instructions mean this is K01)."""

    def __init__(self, prog, ctx, mem, tuples):
        self.prog, self.ctx, self.mem, self.tuples = prog, ctx, mem, tuples
        self.read, self.written = set(), set()

    def run(self):
        import struct
        st = []
        mem = self.mem

        def pop(k=None):
            if not st:
                raise Bad('pops from an empty stack')
            x = st.pop()
            if k and x[0] not in (k, None):
                raise Bad('takes a value of kind %s as one of kind %s' % (x[0], k))
            return x

        def addr():
            a = pop('p')[1]
            if not isinstance(a, int):
                raise Bad('accesses memory at %s' % (a,))
            return 8 * a

        def load(a, n):
            if n > 8:
                self.read.update(range(a, a + n))
            return mem.get(a, n)

        def store(a, n, v):
            self.written.update(range(a, a + n))
            mem.put(a, n, v)
        for op, args in self.prog:
            n, _, k = op.rpartition('_')
            if op == 'Ld_Ctx' or op == 'Upd_Ctx':
                if args[0] >= len(self.ctx):
                    raise Bad('uses value %d of a context of %d' % (args[0], len(self.ctx)))
                if op == 'Ld_Ctx':
                    st.append(self.ctx[args[0]])
                else:
                    x = pop()
                    st.append(x)
                    if x[0] != self.ctx[args[0]][0]:
                        raise Bad('replaces a value of kind %s in the context by one of kind %s' % (self.ctx[args[0]][0], x[0]))
                    self.ctx[args[0]] = x
            elif op == 'Pop':
                pop()
            elif op == 'Dup':
                x = pop()
                st += [x, x]
            elif op == 'Push_Null':
                st.append((None, None))
            elif op == 'Is_Null':
                st.append(('b', pop()[1] is None))
            elif op == 'Inc':
                st.append(('i', pop('i')[1] + 1))
            elif op == 'Dec':
                st.append(('i', pop('i')[1] - 1))
            elif op == 'Add_p':
                b = pop('p')[1]
                st.append(('p', pop('i')[1] + b))
            elif op in ('Add_i', 'Sub_i', 'Mul_i', 'And_i', 'Or_i', 'Xor_i'):
                b, a = pop('i')[1], pop('i')[1]
                st.append(('i', None if a is None or b is None else sint({'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'And': a & b, 'Or': a | b, 'Xor': a ^ b}[n] & 2 ** 64 - 1, 64)))
            elif op in ('Eq_i', 'NE_i', 'LT_i', 'LE_i', 'GT_i', 'GE_i'):
                b, a = pop('i')[1], pop('i')[1]
                st.append(('b', {'Eq': a == b, 'NE': a != b, 'LT': a < b, 'LE': a <= b, 'GT': a > b, 'GE': a >= b}[n]))
            elif op in ('Eq_b', 'NE_b', 'And_b', 'Or_b'):
                b, a = pop('b')[1], pop('b')[1]
                st.append(('b', {'Eq': a == b, 'NE': a != b, 'And': a and b, 'Or': a or b}[n]))
            elif op in ('Div_i', 'Mod_i'):
                b, a = pop('i')[1], pop('i')[1]
                if b == 0:
                    raise Bad('divides by zero')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                st.append(('i', q if n == 'Div' else a - b * q))
            elif op == 'Neg_i':
                st.append(('i', ~pop('i')[1]))
            elif op == 'Minus_i':
                st.append(('i', -pop('i')[1]))
            elif op == 'Not_b':
                st.append(('b', not pop('b')[1]))
            elif op == 'Cast_i_b':
                st.append(('i', int(pop('b')[1])))
            elif op == 'NEZ_i':
                st.append(('b', pop('i')[1] != 0))
            elif op == 'EqZ_i':
                st.append(('b', pop('i')[1] == 0))
            elif op == 'ShL_i':
                b, a = pop('i')[1], pop('i')[1]
                st.append(('i', sint(a << b & 2 ** 64 - 1, 64)))
            elif op == 'ShLi_i':
                st.append(('i', sint(pop('i')[1] << args[0] & 2 ** 64 - 1, 64)))
            elif op == 'SARi_i':
                st.append(('i', pop('i')[1] >> args[0]))
            elif op == 'Sel':
                f, t, c = pop(), pop(), pop('b')
                st.append(t if c[1] else f)
            elif op == 'Ld_Tup':
                if args[0] not in self.tuples or args[1] >= len(self.tuples[args[0]]):
                    raise Bad('loads value %d of tuple %d' % (args[1], args[0]))
                st.append(self.tuples[args[0]][args[1]])
            elif n == 'St_Tup':
                if args[0] not in self.tuples or args[1] >= len(self.tuples[args[0]]):
                    raise Bad('stores value %d of tuple %d' % (args[1], args[0]))
                if k == 's':
                    ln = pop('i')[1]
                    x = pop('p')
                    v = None if x[1] is None else x[1][:ln]
                    kk = 'p'
                else:
                    x = pop(k)
                    v, kk = x[1], k
                st.append(x)
                self.tuples[args[0]][args[1]] = (kk, v)
            elif op in ('Ld_i8', 'Ld_i16', 'Ld_i32', 'Ld_i64'):
                w = int(op[4:])
                st.append(('i', sint(load(addr(), w), w)))
            elif op in ('Ld_f', 'Ld_d'):
                w = 32 if k == 'f' else 64
                st.append((k, struct.unpack('<' + k, load(addr(), w).to_bytes(w // 8, 'little'))[0]))
            elif op == 'Ld_s':
                ln = pop('i')[1]
                a = addr()
                t = load(a, 8 * ln).to_bytes(ln, 'little').split(b'\0')[0].decode('latin-1')
                st.append(('p', t))
            elif op == 'Ld_b':
                a = addr()
                st.append(('b', mem.get(a, 8) & args[0] != 0))
            elif op in ('St_i8', 'St_i16', 'St_i32', 'St_i64', 'St_f', 'St_d'):
                x = pop(k if k in 'fd' else 'i')
                a = addr()
                if x[1] is not None:
                    if k in 'fd':
                        w = 32 if k == 'f' else 64
                        store(a, w, int.from_bytes(struct.pack('<' + k, x[1]), 'little'))
                    else:
                        store(a, int(k[1:]), x[1])
            elif op == 'St_s':
                ln = pop('i')[1]
                x = pop('p')
                a = addr()
                if x[1] is not None:
                    store(a, 8 * ln, int.from_bytes(x[1].encode('latin-1').ljust(ln, b'\0')[:ln], 'little'))
            elif op == 'St_b':
                x = pop('b')
                a = addr()
                if x[1] is not None:
                    store(a + args[0], 1, int(x[1]))
            else:
                raise AnalysisBroken('S02: instruction %s in a program that loads or stores' % op)
        return st

def place(tree, row, off=0):
    """{index of a leaf: (bit offset in the store, type)} of the row."""
    out = {}
    for child, o, stride in tree[2]:
        if child[0] == 'leaf':
            if child[2] in out:
                raise Bad('has two leaves %d' % child[2])
            out[child[2]] = (off + o + row * stride, child[1])
        else:
            n = child[1]
            for k, v in place(child, row % n, off + o + (row // n) * stride).items():
                if k in out:
                    raise Bad('has two leaves %d' % k)
                out[k] = v
    return out


def show(tys):
    return ', '.join(tyname(t) for t in tys)


def tyname(t):
    if t[0] == 'Boolean':
        return 'BOOL'
    if t[0] == 'CharacterSequence':
        return '%sCHAR(%d)' % ('VAR' if t[3] else '', t[2])
    if t[0] == 'Numeric':
        return {'N_Int': 'INT(%d)', 'N_Float': 'FLOAT(%d)', 'N_Decimal': 'DECIMAL(%d,%d)'}[t[2]] % (t[3:5] if t[2] == 'N_Decimal' else t[3])
    return t[0]


I1, I2, I4, I8, F, D, B, DA, DT = (Ty.int(1, 1), Ty.int(2, 1), Ty.int(4, 1), Ty.int(8, 1), Ty.float(32, 1), Ty.float(64, 1), Ty.boolean(1), Ty.date(1), Ty.datetime(1))
C1, C5, V3, M2, M9 = Ty.char(1, 0, 1), Ty.char(5, 0, 1), Ty.char(3, 1, 1), Ty.decimal(2, 1, 1), Ty.decimal(12, 2, 1)


def value(ty, row, k):
    """Some value of the type."""
    x = (row + 1) * 2654435761 + (k + 3) * 40503
    x ^= x >> 13
    r = rep(ty)
    if r == 'b':
        return bool(x >> 4 & 1)
    if r == 'p':
        return ''.join(chr(97 + (x >> i) % 26) for i in range(x % (ty[2] + 1)))
    if r in 'fd':
        return (x % 4001 - 2000) / 8
    return sint(x * 11400714819323198485 & (1 << size(ty)) - 1, size(ty))


# ---- programs
def access(c, W, build, full):
    """The programs that load and store tuples, executed row by row."""
    fn = {}
    for n in ('compile_load', 'compile_store'):
        fs = [f for f in W.P.by_q.get('m::Interpreter::' + n, ()) if f.body is not None]
        if len(fs) != 1 or len(fs[0].params) != 6:
            raise AnalysisBroken('anchor vanished: Interpreter::' + n)
        fn[n] = fs[0]
    nn = next((W.P.enums[q]['NOT_NULLABLE'] for q in W.P.enums if 'NOT_NULLABLE' in W.P.enums[q]), None)
    if nn is None:
        raise AnalysisBroken('anchor vanished: NOT_NULLABLE')
    BASE = 1 << 20
    progs = rows = 0

    def schema(st, L, es):
        st = W.schema(st, L, [(None, 'a%d' % i, t) for i, t, _ in es])
        for k, (_, _, notnull) in enumerate(es):
            st = st.set(node(L + (W.fent,), k) + ('constraints',), nn if notnull else 0)
        return st

    def compile(store, what, tys, notnull, sub, loc, st, row):
        """[(program, context)]"""
        nonlocal progs
        A, Z = ('root', 'tschema'), ('root', 'lschema')
        st = schema(st, A, [(i, tys[i], i in notnull) for i in sub])
        st = schema(st, Z, [(i, t, i in notnull) for i, t in enumerate(tys)])
        progs += 1
        W.op = 'store' if store else 'load'
        W.show = 'attributes %s from row %d on, %s' % (', '.join(map(str, sub)), row, what)
        rets, thrown = W.run(fn['compile_store' if store else 'compile_load'], st, None, [('ref', A), ('val', BASE), ('ref', loc), ('ref', Z), ('val', row), ('val', 1)])
        if thrown:
            W.viol('throws', 'compiling throws %s' % ', '.join(sorted({t.typ for t, _ in thrown})))
        out = []
        for v, s in rets:
            if not (isinstance(v, tuple) and v[0] in ('obj', 'lref')):
                raise AnalysisBroken('S02: no program but %s' % (v,))
            try:
                out.append(W.program(s, v[1]))
            except Bad as x:
                W.viol('program', 'the program %s' % x)
        return out

    def fill(mem, tree, tys, nulls, row, seed):
        """The row in memory: its values."""
        p = place(tree, row)
        vs = []
        for i, t in enumerate(tys):
            v = value(t, row + seed, i)
            b, n = bits(v, t)
            mem.put(8 * BASE + p[i][0], n, b)
            null = i in nulls and len(tys) in p and (row * 7 + i * 3 + seed) % 3 == 0
            if len(tys) in p and i in nulls:
                mem.put(8 * BASE + p[len(tys)][0] + i, 1, int(null))
            vs.append((rep(t), None if null else v))
        return vs

    def check(what, tree, loc, st, tys, notnull, sub, row, count, store):
        nonlocal rows
        nulls = set(range(len(tys))) - set(notnull)
        for prog, ctx in compile(store, what, tys, notnull, sub, loc, st, row):
            for seed in (0, 1):
                mem = Memory(seed)
                want = [fill(mem, tree, tys, nulls, r, 0) for r in range(row + count + 1)]
                vm = Vm(prog, [(k, v) for k, v in ctx], mem, {1: None})
                try:
                    for r in range(row, row + count):
                        rows += 1
                        vm.read, vm.written = set(), set()
                        if not store:
                            vm.tuples[1] = [('?', '?')] * len(sub)
                            vm.run()
                            if vm.written:
                                W.viol('writes', 'the program writes the store')
                                return
                            p = place(tree, r)
                            own = {8 * BASE + p[i][0] + x for i in sub for x in range(size(tys[i]))}
                            if vm.read - own:
                                W.viol('reads', 'loading row %d reads bit %d of the store, which does not belong to its attributes' % (r, min(vm.read - own) - 8 * BASE))
                                return
                            for k, i in enumerate(sub):
                                g, w = vm.tuples[1][k], want[r][i]
                                if not (g[1] is None and w[1] is None) and (g[1] is None or w[1] is None or g[0] != w[0] or g[1] != w[1]):
                                    W.viol('value', 'attribute %d of row %d is loaded as %s instead of %s' % (i, r, fmt(g), fmt(w)))
                                    return
                            continue
                        before = dict(mem.bits)
                        vals = fill(Memory(0), tree, tys, nulls, r, 1 + seed)
                        vm.tuples[1] = [vals[i] for i in sub]
                        vm.run()
                        p = place(tree, r)
                        own = {}
                        for i in sub:
                            b, n = bits(vals[i][1], tys[i]) if vals[i][1] is not None else (None, size(tys[i]))
                            for x in range(n):
                                own[8 * BASE + p[i][0] + x] = None if b is None else b >> x & 1, 'a bit of attribute %d' % i
                            if len(tys) in p:
                                a = 8 * BASE + p[len(tys)][0] + i
                                own[a] = (int(vals[i][1] is None) if i in nulls else None), 'the NULL bit of attribute %d' % i
                        for a, (b, t) in own.items():
                            if b is not None and mem.bit(a) != b:
                                W.viol('stored', '%s of row %d is %d instead of %d after storing %s' % (t, r, 1 - b, b, ', '.join(fmt(vals[i]) for i in sub)))
                                return
                        for a in vm.written:
                            if a not in own and (before[a] if a in before else Memory(seed).bit(a)) != mem.bit(a):
                                W.viol('foreign', 'storing row %d changes bit %d of the store, which does not belong to its attributes' % (r, a - 8 * BASE))
                                return
                except Bad as x:
                    W.viol('kind', 'the program %s' % x)
                    return
                except (TypeError, OverflowError) as x:
                    W.viol('kind', 'the program computes with NULL or out of range')
                    return

    L1 = [I8, I1, B, C5, F]
    L2 = [I4, B, I8, B, C1, B, I2, M9]
    L3 = [DT, M2, D, V3, B, B, I1, F, C5, I8]
    ROW, N3, N8, N16, B37, B64 = ('Row', None), ('PAX', ('NTuples', 3)), ('PAX', ('NTuples', 8)), ('PAX', ('NTuples', 16)), ('PAX', ('NBytes', 37)), ('PAX', ('NBytes', 64))
    REO = {'attribute_reordering'}
    al = lambda t: list(range(len(t)))
    todo = []
    for sp in (ROW, N3, N8, N16, B64):
        for t in (L1, L2, L3):
            todo.append((sp, t, (), al(t), 0, REO))
            todo.append((sp, t, (1, 2), al(t)[::-2], 1, REO))
        todo.append((sp, [DA, B], (), [1, 0], 5, REO))
    for sp in (ROW, N3, B64) if not full else (ROW, N3, N8, N16, B37, B64):
        todo += [(sp, [B] * 9 + [I4], (9,), al(range(10)), 0, REO), (sp, [B] * 9 + [I4], al(range(10)), [8, 0, 3], 2, REO), (sp, L1, (), [2, 3], 17, REO), (sp, L1, al(L1), al(L1), 0, REO | {'remove_null_bitmap'}), (sp, L2, (), al(L2), 0, set())]
    L4 = [I4, B, C1, I2] * 5
    todo += [(sp, L4, (0, 7), al(L4), 0, REO) for sp in (ROW, N3, B64)]
    todo += [(sp, L1, (0,), al(L1), 0, REO, 48) for sp in (ROW, N3, N16)]
    for sp, tys, notnull, sub, row, opts, *n in todo:
        what, ls = build(*sp, tys, opts, n[0] if n else 0)
        for tree, loc, s in ls:
            k = tree[2][0][0][1]
            for store in (0, 1):
                check(what, tree, loc, s, tys, notnull, sub, row, min(2 * k + 3, 40), store)
    # nested sequences
    leaf = lambda t, i: ('leaf', t, i)
    map_ = lambda n: Ty.bitmap(n, 1)
    T1 = [I4, B, I8]
    nested = [
        ('rows of one tuple beside a column', T1, 0, ('inode', 0, [(('inode', 8, [(('inode', 1, [(leaf(I4, 0), 0, 0), (leaf(B, 1), 32, 0)]), 0, 64), (leaf(I8, 2), 512, 64), (leaf(map_(3), 3), 1024, 8)]), 0, 1152)])),
        ('blocks of blocks', T1, 3, ('inode', 0, [(('inode', 12, [(('inode', 3, [(leaf(I4, 0), 0, 32), (leaf(B, 1), 96, 1), (leaf(I8, 2), 128, 64), (leaf(map_(3), 3), 320, 8)]), 64, 384)]), 0, 1664)])),
        ('blocks of blocks beside a column', T1, 7, ('inode', 0, [(('inode', 16, [(('inode', 4, [(leaf(I4, 0), 0, 32), (leaf(B, 1), 128, 1), (leaf(map_(3), 3), 136, 4)]), 128, 192), (leaf(I8, 2), 896, 64)]), 0, 2048)])),
        ('three levels', T1, 5, ('inode', 0, [(('inode', 16, [(('inode', 8, [(('inode', 2, [(leaf(I4, 0), 0, 32), (leaf(B, 1), 64, 1)]), 0, 96), (leaf(map_(3), 3), 384, 8)]), 0, 512), (leaf(I8, 2), 1024, 64)]), 0, 2112)])),
        ('bits in an outer block', [B, I2, B], 1, ('inode', 0, [(('inode', 8, [(leaf(B, 0), 0, 1), (('inode', 4, [(leaf(I2, 1), 0, 16), (leaf(map_(3), 3), 64, 4)]), 8, 88), (leaf(B, 2), 184, 1)]), 0, 200)])),
        ('a NULL bitmap in rows', [B, I2, B], 0, ('inode', 0, [(('inode', 1, [(leaf(I2, 1), 8, 0), (leaf(B, 0), 3, 0), (leaf(B, 2), 27, 0), (leaf(map_(3), 3), 28, 0)]), 0, 40)])),
    ]
    W.op = 'load'
    for what, tys, row, tree in nested:
        loc = ('root', 'layout')
        s = W.layout(W.start(), loc + (W.froot,), tree)
        for sub, notnull in ((al(tys), ()), ([2, 1], (2,))):
            for store in (0, 1):
                check(what, tree, loc, s, tys, notnull, sub, row, 40, store)
    c.ob(progs)
    c.stat('programs', progs)
    c.stat('rows accessed', rows)


def fmt(x):
    return 'NULL' if x[1] is None else repr(x[1])


@check('S02', 'Data layouts give every value its own bits and the compiled loads and stores access exactly those')
def s02(c):
    W = Layouts(c)
    full = os.environ.get('VERIF_TIER') == 'thorough'
    layouts = rows = 0
    progs = accesses = 0

    def overlaps(what, tree, n, tys, bitmap, aligned):
        """The bits of the values and of the NULL bitmaps of n rows are disjoint, aligned and within the rows of the store."""
        used = {}
        child, _, stride = tree[2][0]
        for r in range(n):
            p = place(tree, r)
            for i, ty in enumerate(tys):
                if i not in p:
                    return '%s has no place for attribute %d' % (what, i)
                if p[i][1] != ty:
                    return '%s holds attribute %d as %s' % (what, i, tyname(p[i][1]))
            if (len(tys) in p) != bool(bitmap):
                return '%s has %s NULL bitmap' % (what, 'a' if len(tys) in p else 'no')
            if set(p) - set(range(len(tys) + 1)):
                return '%s has leaves %s' % (what, sorted(p))
            for i, (a, ty) in p.items():
                name = 'the NULL bitmap' if i == len(tys) else 'attribute %d (%s)' % (i, tyname(ty))
                if i == len(tys) and (ty[0] != 'Bitmap' or ty[2] < len(tys)):
                    return '%s holds the NULL bits of %d attributes as %s' % (what, len(tys), ty)
                if ty[0] not in ('Boolean', 'Bitmap') and a % 8:
                    return '%s puts %s of row %d at bit %d, which is no byte' % (what, name, r, a)
                if aligned and i < len(tys) and a % alignment(ty):
                    return '%s puts %s of row %d at bit %d, which is not aligned to %d bits' % (what, name, r, a, alignment(ty))
                blk = r // child[1]
                if a < blk * stride or a + size(ty) > (blk + 1) * stride:
                    return '%s puts %s of row %d at bits [%d, %d), outside of its block [%d, %d)' % (what, name, r, a, a + size(ty), blk * stride, (blk + 1) * stride)
                for b in range(a, a + size(ty)):
                    if b in used:
                        return '%s puts %s of row %d and %s of row %d both at bit %d' % (what, name, r, used[b][0], used[b][1], b)
                    used[b] = name, r
        return None

    def method(cls, n, pred=lambda f: True):
        fs = [f for f in W.P.by_q.get('m::storage::%s::%s' % (cls, n), ()) if f.body is not None and pred(f)]
        if len(fs) != 1:
            raise AnalysisBroken('anchor vanished: %s::%s (%d)' % (cls, n, len(fs)))
        return fs[0]
    vector = lambda f: 'vector' in (f.types[f.params[0]['t']].get('canon') or f.types[f.params[0]['t']]['s'])
    make_ = {k: method(k + 'LayoutFactory', 'make', vector) for k in ('Row', 'PAX')}
    ctor = [f for f in W.P.funcs.values() if f.kind == 'ctor' and f.cls == 'm::storage::PAXLayoutFactory' and len(f.params) == 2 and f.body is not None]
    if len(ctor) != 1:
        raise AnalysisBroken('anchor vanished: the constructor of PAXLayoutFactory')
    sizes = next((W.P.enums[q] for q in W.P.enums if {'NTuples', 'NBytes'} <= set(W.P.enums[q])), None)

    def build(kind, arg, tys, opts, n):
        """[(layout, location, st)] of the layouts the factory makes."""
        st = W.start()
        for o, q in W.opts.items():
            st = st.set(('g', q), 1 if o in opts else 0)
        L, Fa = ('root', 'types'), ('root', 'factory')
        st = make(st, L, range(len(tys)))
        for i, t in enumerate(tys):
            v, st = W.ty(st, t)
            st = st.set(node(L, i), v)
        st = st.set(Fa + ('__cls',), ('str', 'm::storage::%sLayoutFactory' % kind)).set(Fa + ('__alive',), 1)
        what = '%s%s for (%s)%s' % (kind, '(%d %s)' % (arg[1], {'NTuples': 'tuples', 'NBytes': 'bytes'}[arg[0]]) if arg else '', show(tys), ''.join(' ' + o for o in sorted(opts)))
        W.op, W.show = 'layout', what
        if arg:
            rets, thrown = W.run(ctor[0], st, Fa, [('val', sizes[arg[0]]), ('val', arg[1])])
            if len(rets) != 1:
                raise AnalysisBroken('S02: constructing a PAX factory')
            st = rets[0][1]
        rets, thrown = W.run(make_[kind], st, Fa, [('ref', L), ('val', n)])
        if thrown:
            W.viol('throws', 'the factory throws %s for %s' % (', '.join(sorted({t.typ for t, _ in thrown})), what))
        out = []
        for v, s in rets:
            if not (isinstance(v, tuple) and v[0] in ('obj', 'lref')):
                raise AnalysisBroken('S02: no layout but %s' % (v,))
            out.append((W.read(s, v[1] + (W.froot,)), v[1], s))
        return what, out

    LISTS = [[t] for t in (I1, I4, I8, F, D, B, DA, DT, C5, V3, M9)] + [[B, I4], [I4, B], [I8, I1, B, C5, F], [V3, I2, B, DA], [B] * 3, [B] * 9 + [I4], [I4, B, I8, B, C1, B, I2, M9], [DT, M2, D, V3, B, B, I1, F, C5, I8], [I1, B], [Ty.decimal(1, 0, 1), B, Ty.decimal(1, 1, 1)]]
    REO = 'attribute_reordering'
    SPECS = [('Row', None)] + [('PAX', ('NTuples', k)) for k in (1, 2, 3, 8, 16, 21)] + [('PAX', ('NBytes', k)) for k in (1, 8, 37, 64, 512)]
    SHORT = [[B, I4, B, I8], [V3, I2, B, DA], [I1, B], [B] * 9 + [I4]]
    todo = [(sp, tys, {REO}, 0) for sp in SPECS for tys in LISTS if sp[1] != ('NBytes', 512) or len(tys) > 1]
    todo += [(sp, tys, o, 0) for sp in SPECS[:1] + SPECS[3:4] + SPECS[5:6] + SPECS[9:11] for tys in SHORT for o in (set(), {REO, 'remove_null_bitmap'}, {REO, 'pax_pack_one_tuple_less'}, {'remove_null_bitmap', 'pax_pack_one_tuple_less'})]
    todo += [(sp, SHORT[0], {REO}, n) for sp in SPECS[:1] + SPECS[3:4] for n in (24, 48)]
    for sp, tys, opts, n in todo:
        what, ls = build(*sp, tys, opts, n)
        for tree, loc, s in ls:
            layouts += 1
            if len(tree[2]) != 1 or tree[2][0][0][0] != 'inode' or tree[1] != n:
                W.viol('shape', '%s is no layout of one sequence of blocks' % what)
                continue
            k = tree[2][0][0][1]
            rows += 2 * k + 1
            try:
                m = overlaps(what, tree, 2 * k + 1, tys, 'remove_null_bitmap' not in opts, sp[0] == 'Row' or REO in opts and (sp[1][0] == 'NTuples' or sp[1][1] % 8 == 0))
            except Bad as x:
                m = '%s %s' % (what, x)
            if m:
                W.viol('layout', m)
    access(c, W, build, full)
    c.use(W.E)
    c.ob(layouts)
    c.stat('layouts', layouts)
    c.stat('rows placed', rows)
    c.floor('layouts', layouts, 300)
    c.floor('rows placed', rows, 5000)
    c.rule('The factories are interpreted on enumerated lists of types, options and parameters; the bits of every value of two blocks of rows must be disjoint, inside their block and aligned. '
           'Interpreter::compile_load / compile_store are interpreted on these and on nested layouts; the program is executed on symbolic rows with the meaning K01 establishes for each instruction, '
           'and the addresses and bits it loads and stores must be those the layout gives for the k-th row.')
