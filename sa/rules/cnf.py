"""N01: conversion to conjunctive normal form."""
import itertools
import os
import re

from .astmodel import Ast, Ty, shape
from .catalog import field
from ..containers import make, node
from ..engine import VOID, State
from ..streams import OUT, Streams, content, start
from ..ir import AnalysisBroken
from ..registry import check

B, I = Ty.boolean(), Ty.int(4)
OPS = {'AND': ('TK_And', 'AND'), 'OR': ('TK_Or', 'OR'), '=': ('TK_EQUAL', '='), '!=': ('TK_BANG_EQUAL', '!=')}


class Cnf(Ast):
    def __init__(self, c):
        super().__init__(c, 'N01', ('/verif/drivers/cnf.cpp', 'src/IR/CNF.cpp', 'src/parse/AST.cpp', 'src/parse/ASTPrinter.cpp', 'src/catalog/Type.cpp'))
        M = self.E.models
        self.S = Streams(self)
        self.flit = field(self.P, 'm::cnf::Predicate', lambda T: True, 'the literal')
        M['drv::clause'] = lambda E, e, st, fr: [(VOID, self.event(st, ('clause',)))]
        M['drv::literal'] = self.literal
        M['drv::number'] = self.number

    def literal(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['args'][0], st, fr):
            for v, s2 in self.K.val(e['args'][1], s, fr):
                if not isinstance(v, int):
                    raise AnalysisBroken('%s: unknown sign' % fr.fn.loc(e))
                out.append((VOID, self.event(s2, ('lit', l, v))))
        return out

    def number(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            if not isinstance(v, int):
                raise AnalysisBroken('%s: unknown number %s' % (fr.fn.loc(e), v))
            out.append((VOID, self.event(s, ('num', v))))
        return out

    def go(self, name, st, args):
        fn = self.P.one('drv::' + name)
        rets, thrown = self.run(fn, st.withmon(()), None, args)
        if thrown:
            self.viol('throws', 'throws an exception')
        return [s.mon for _, s in rets]

    def make(self, st, L, lits):
        st = make(st, L, range(len(lits))).set(L + ('__alive',), 1)
        for i, (l, n) in enumerate(lits):
            st = st.set(node(L, i) + (self.flit,), ('tp', l, 1) if n else ('p', l)).set(node(L, i) + ('__alive',), 1)
        return st

    def cnf(self, st, L, cs):
        st = make(st, L, range(len(cs))).set(L + ('__alive',), 1)
        for i, c in enumerate(cs):
            st = self.make(st, node(L, i), c)
        return st


def parse(s):
    """Value of a printed condition over the letters a-h: NOT binds tighter than AND, AND tighter than OR."""
    toks = re.findall(r'[A-Za-z_.$]+|\S', s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take(x):
        if peek() != x:
            raise ValueError(s)
        pos[0] += 1

    def atom():
        t = peek()
        if t == '(':
            take('(')
            v = disj()
            take(')')
            return v
        if t == 'NOT':
            take('NOT')
            v = atom()
            return lambda a: 1 - v(a)
        if t == 'TRUE':
            take('TRUE')
            return lambda a: 1
        if t is None or not re.fullmatch(r't\.[a-h]', t):
            raise ValueError(s)
        take(t)
        return lambda a: a[t]

    def conj():
        xs = [atom()]
        while peek() == 'AND':
            take('AND')
            xs.append(atom())
        return lambda a: min(x(a) for x in xs)

    def disj():
        xs = [conj()]
        while peek() == 'OR':
            take('OR')
            xs.append(conj())
        return lambda a: max(x(a) for x in xs)
    r = disj()
    if peek() is not None:
        raise ValueError(s)
    return r


def sub(t):
    """Sub-expressions that are reached through logical connectives: the literals a normal form may consist of."""
    if t[0] == 'un' and t[1] == 'TK_Not':
        return sub(t[3])
    if t[0] == 'bin' and t[3][-1] == B and t[4][-1] == B:
        return sub(t[3]) + sub(t[4])
    return [t]


def kleene(t, a):
    """Truth value (0, 1, 0.5 = unknown) of t when its literals have the values a."""
    if t[0] == 'un' and t[1] == 'TK_Not':
        return 1 - kleene(t[3], a)
    if t[0] == 'bin' and t[3][-1] == B and t[4][-1] == B:
        x, y = kleene(t[3], a), kleene(t[4], a)
        if t[2] == 'AND':
            return min(x, y)
        if t[2] == 'OR':
            return max(x, y)
        if x == 0.5 or y == 0.5:
            return 0.5
        return int((x == y) == (t[2] == '='))
    return a[t]


def binop(o, a, b):
    return ('bin',) + OPS[o] + (a, b, B)


def neg(a):
    return ('un', 'TK_Not', 'NOT', a, B)


def leaves():
    x, y = ('des', 't', 'x', I), ('des', 'u', 'y', I)
    return [('des', 't', 'a', B), ('bin', 'TK_LESS', '<', x, y, B), ('const', 'TK_True', 'TRUE', B), ('fn', ('des', None, 'ISNULL', Ty.NONE), (x,), 'f', B),
            ('query', 1, B), ('bin', 'TK_EQUAL', '=', ('des', 'v', 'x', I), ('des', 'w', 'y', I), B), ('un', 'TK_TILDE', '~', ('des', 't', 'b', B), B),
            ('bin', 'TK_BANG_EQUAL', '!=', ('des', 'v', 'c', Ty.char(3)), ('const', 'TK_STRING_LITERAL', '"k"', Ty.char(1)), B)]


def shapes(thorough):
    A = [('des', 't', n, B) for n in ('a', 'b', 'c', 'd')]
    for l in leaves():
        for k in range(4):
            t = l
            for _ in range(k):
                t = neg(t)
            yield t
    ops = list(OPS)

    def nots(t, bits):
        return neg(t) if bits & 1 else t
    # two operands of every kind
    for o in ops:
        for i, l in enumerate(leaves()):
            yield nots(binop(o, l, A[1]), i)
            yield nots(binop(o, neg(A[1]), l), i)
        for m in range(8):
            yield nots(binop(o, nots(A[0], m >> 1), nots(A[1], m >> 2)), m)
        yield binop(o, A[0], A[0])
    # three
    for o, p in itertools.product(ops, ops):
        for m in range(4 if not thorough else 32):
            i = nots(binop(p, nots(A[1], m >> 2), nots(A[2], m >> 3)), m >> 1)
            yield nots(binop(o, A[0], i), m)
            yield nots(binop(o, i, nots(A[0], m >> 4)), m)
    # four
    for o, p, q in itertools.product(ops, ops, ops):
        if not thorough and (o not in ('AND', 'OR') and (p, q) != ('AND', 'OR') or [o, p, q].count('=') + [o, p, q].count('!=') > 1):
            continue
        if [o, p, q].count('=') + [o, p, q].count('!=') > 2:
            continue
        for m in range(2 if not thorough else 4):
            yield nots(binop(o, nots(binop(p, A[0], A[1]), m >> 1), binop(q, A[2], neg(A[3]))), m)


def size(t, n=0):
    """Clause lengths of the normal form as a textbook conversion has them (a bound on the work, not an expectation)."""
    if t[0] == 'un' and t[1] == 'TK_Not':
        return size(t[3], not n)
    if not (t[0] == 'bin' and t[3][-1] == B and t[4][-1] == B):
        return [1]
    conj = lambda x, y: x + y

    def disj(x, y):
        if not x or not y:
            return x or y
        return [a + b for a in x for b in y] if len(x) * len(y) < 1000 else [1000]

    def inv(x):
        r = []
        for k in x:
            r = disj(r, [1] * k)
        return r
    x, y = size(t[3], n), size(t[4], n)
    if sum(x) + sum(y) > 300:
        return [1000]
    if t[2] in ('AND', 'OR'):
        return conj(x, y) if (t[2] == 'AND') != bool(n) else disj(x, y)
    e = conj(disj(inv(x), y), disj(inv(y), x))
    return inv(e) if (t[2] == '!=') != bool(n) else e


def clauses(mon):
    out = []
    for x in mon:
        if x[0] == 'clause':
            out.append([])
        elif x[0] == 'lit':
            if not out:
                raise AnalysisBroken('a literal outside of a clause')
            out[-1].append((x[1], x[2]))
    return out


def value(cs, a):
    """Truth value of a conjunction of disjunctions."""
    r = 1
    for c in cs:
        v = 0
        for l, n in c:
            x = a[l]
            v = max(v, 1 - x if n else x)
        r = min(r, v)
    return r


def where(W, st, loc, t):
    """location -> subtree of the literals of t"""
    if t[0] == 'un' and t[1] == 'TK_Not':
        return where(W, st, st.mem[loc + ('expr',)][1], t[3])
    if t[0] == 'bin' and t[3][-1] == B and t[4][-1] == B:
        return where(W, st, st.mem[loc + ('lhs',)][1], t[3]) | where(W, st, st.mem[loc + ('rhs',)][1], t[4])
    return {loc: t}


@check('N01', 'Conversion to conjunctive normal form preserves the meaning of conditions')
def n01(c):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    W = Cnf(c)
    n = nv = 0
    W.op = 'conversion'
    failed = 0
    for t in shapes(thorough):
        if failed > 12:
            break
        if sum(size(t)) > (2000 if thorough else 400):
            continue
        W.show = shape(t)
        loc, st = W.tree(State(), t)
        lits = where(W, st, loc, t)
        n += 1
        for mon in W.go('conv', st, [('ref', loc)]):
            cs = clauses(mon)
            bad = [l for x in cs for l, _ in x if l not in lits]
            if bad:
                failed += 1
                W.viol('literal', 'a literal of the normal form is not an operand of the logical connectives')
                continue
            if any(not x for x in cs):
                W.viol('empty', 'the normal form contains an empty clause')
            leafs = sorted(set(lits.values()), key=repr)
            for vals in itertools.product((0, 0.5, 1), repeat=len(leafs)):
                a = dict(zip(leafs, vals))
                nv += 1
                if value(cs, {l: a[x] for l, x in lits.items()}) != kleene(t, a):
                    show = {0: 'false', 0.5: 'unknown', 1: 'true'}
                    W.viol('value', 'the normal form is %s where the condition is %s' % (show[value(cs, {l: a[x] for l, x in lits.items()})], show[kleene(t, a)]))
                    failed += 1
                    break
    c.stat('trees', n)
    c.stat('assignments', nv)
    n += predicates(W)
    k = formulas(W, thorough)
    c.stat('operations', k)
    n += k
    c.ob(n)
    c.use(W.E)
    if not failed:
        c.floor('conversions', c.stats['trees'], 200)
    c.rule('to_CNF is interpreted on every condition shape up to the bound (connectives AND, OR, =, != over up to four operands, NOT anywhere, all kinds of literals); '
           'every literal of the result has to be an operand of the connectives and the value of the conjunction of disjunctions has to agree with the condition for all '
           'assignments of true, false and unknown.')
    c.rule('The operators on predicates, clauses and normal forms (or, and, not, <=, >=, ==, !=), is_equi, can_be_null and to_sql are interpreted on every small operand and compared '
           'with their meaning; printed conditions are parsed back.')


def predicates(W):
    x, y = ('des', 't', 'x', I), ('des', 'u', 'y', I)
    one = ('const', 'TK_DEC_INT', '1', I)
    n = 0
    W.op = 'predicate'
    pool = leaves() + [('bin', 'TK_EQUAL', '=', x, one, B), ('bin', 'TK_EQUAL', '=', one, y, B), ('bin', 'TK_EQUAL', '=', x, y, B), ('bin', 'TK_BANG_EQUAL', '!=', x, y, B),
                       ('bin', 'TK_LESS_EQUAL', '<=', x, y, B), ('const', 'TK_Null', 'NULL', B), ('const', 'TK_False', 'FALSE', B)]
    for t in pool:
        for sign in (0, 1):
            n += 1
            W.show = ('not ' if sign else '') + shape(t)
            loc, st = W.tree(State(), t)
            for mon in W.go('pred', st, [('ref', loc), ('val', sign)]):
                want = (('lit', loc, sign), ('lit', loc, sign), ('lit', loc, 1 - sign), ('num', 1), ('num', 0), ('num', 1), ('num', 1)) if t[0] != 'query' else None
                got = mon if want else mon[:3]
                if got != (want or (('lit', loc, sign), ('lit', loc, sign), ('lit', loc, 1 - sign))):
                    W.viol('sign', 'the predicate does not keep its expression and sign')
            eq = t[0] == 'bin' and t[2] == ('!=' if sign else '=') and t[3][0] == t[4][0] == 'des'
            for mon in W.go('pequi', st, [('ref', loc), ('val', sign)]):
                if mon != (('num', int(eq)),):
                    W.viol('equi', 'the predicate is %sreported as an equi-predicate' % ('not ' if eq else ''))
            for u in pool:
                if 'query' in (t[0], u[0]):
                    continue
                for sign2 in (0, 1):
                    l2, s2 = W.tree(st, u)
                    same = int(t == u and sign == sign2)
                    for mon in W.go('peq', s2, [('ref', loc), ('val', sign), ('ref', l2), ('val', sign2)]):
                        if mon != (('num', same), ('num', 1 - same)):
                            W.viol('equal', 'equality with %s%s is wrong' % ('not ' if sign2 else '', shape(u)))
    return n


def formulas(W, thorough):
    n = 0
    base = State()
    L = {}
    for x in 'abc':
        L[x], base = W.tree(base, ('des', 't', x, B))
    names = {v: 't.' + k for k, v in L.items()}
    nul, base = W.tree(base, ('const', 'TK_Null', 'NULL', B))
    tru, base = W.tree(base, ('const', 'TK_True', 'TRUE', B))
    eq, base = W.tree(base, ('bin', 'TK_EQUAL', '=', ('des', 't', 'x', I), ('des', 'u', 'y', I), B))
    lt, base = W.tree(base, ('bin', 'TK_LESS', '<', ('des', 't', 'x', I), ('des', 'u', 'y', I), B))
    ls = [(L[x], s) for x in 'abc' for s in (0, 1)]
    C1 = [[l] for l in ls[:4]] + [[ls[0], ls[3]], [ls[2], ls[1]], [ls[0], ls[2], ls[5]], [ls[3], ls[0]], [ls[0], ls[0]]]
    F1 = [[c] for c in C1[:6]] + [[[ls[0]], [ls[3]]], [[ls[0], ls[2]], [ls[5]]], [[ls[1], ls[4]], [ls[2], ls[3]]], [[ls[3]], [ls[0]]], [[ls[0]], [ls[2]], [ls[4], ls[1]]]]
    p, q = ('root', 'p'), ('root', 'q')
    vals = list(itertools.product((0, 0.5, 1), repeat=3))
    env = [dict(zip([L[x] for x in 'abc'], v)) for v in vals]

    def text(c):
        return '(%s)' % ' or '.join(('not ' if s else '') + names.get(l, '?') for l, s in c)

    def ftext(f):
        return ' and '.join(text(c) for c in f) or 'empty'

    def check(name, st, args, want, what):
        for mon in W.go(name, st, args):
            cs = clauses(mon)
            if any(l not in env[0] for c in cs for l, _ in c):
                W.viol('literal', 'yields a literal that is in none of the operands')
            elif any(value(cs, a) != want(a) for a in env):
                W.viol('value', 'yields %s' % ftext(cs))
    disj = lambda c, a: max([1 - a[l] if s else a[l] for l, s in c], default=0)
    conj = lambda f, a: min([disj(c, a) for c in f], default=1)
    for c in C1:
        s0 = W.make(base, p, c)
        W.op, W.show = 'not of a clause', text(c)
        check('cnot', s0, [('ref', p)], lambda a: 1 - disj(c, a), '')
        for d in C1:
            n += 3
            st = W.make(s0, q, d)
            W.show = '%s, %s' % (text(c), text(d))
            W.op = 'or of clauses'
            check('cor', st, [('ref', p), ('ref', q)], lambda a: max(disj(c, a), disj(d, a)), '')
            W.op = 'and of clauses'
            check('cand', st, [('ref', p), ('ref', q)], lambda a: min(disj(c, a), disj(d, a)), '')
            W.op = 'comparison of clauses'
            le, ge = set(c) <= set(d), set(d) <= set(c)
            for mon in W.go('crel', st, [('ref', p), ('ref', q)]):
                if mon != (('num', int(le)), ('num', int(ge)), ('num', int(le and ge)), ('num', int(not (le and ge)))):
                    W.viol('value', '<=, >=, ==, != yield %s' % (mon,))
    for f in F1 + [[]]:
        s0 = W.cnf(base, p, f)
        W.op, W.show = 'not of a normal form', ftext(f)
        if f:
            check('fnot', s0, [('ref', p)], lambda a: 1 - conj(f, a), '')
        for g in F1 + [[]]:
            n += 3
            st = W.cnf(s0, q, g)
            W.show = '%s; %s' % (ftext(f), ftext(g))
            if f and g:
                W.op = 'or of normal forms'
                check('forr', st, [('ref', p), ('ref', q)], lambda a: max(conj(f, a), conj(g, a)), '')
            W.op = 'and of normal forms'
            check('fand', st, [('ref', p), ('ref', q)], lambda a: min(conj(f, a), conj(g, a)), '')
            fs, gs = {frozenset(c) for c in f}, {frozenset(c) for c in g}
            W.op = 'comparison of normal forms'
            le, ge = fs <= gs, gs <= fs
            for mon in W.go('frel', st, [('ref', p), ('ref', q)]):
                if mon != (('num', int(le)), ('num', int(ge)), ('num', int(le and ge)), ('num', int(not (le and ge)))):
                    W.viol('value', '<=, >=, ==, != yield %s' % (mon,))
    # printing
    W.op = 'to_sql'
    for kind, objs in (('CNF', F1 + [[]]), ('Clause', C1), ('Predicate', ls)):
        fn = W.P.one('m::cnf::%s::to_sql' % kind)
        for f in objs:
            n += 1
            if kind == 'CNF':
                st, W.show, want = W.cnf(base, p, f), ftext(f), lambda a: conj(f, a)
            elif kind == 'Clause':
                st, W.show, want = W.make(base, p, f), text(f), lambda a: disj(f, a)
            else:
                st = base.set(p + (W.flit,), ('tp', f[0], 1) if f[1] else ('p', f[0]))
                W.show, want = text([f]), lambda a: disj([f], a)
            rets, thrown = W.run(fn, start(st.withmon(())), p, [('ref', OUT)])
            if thrown:
                W.viol('throws', 'throws an exception')
            for _, s in rets:
                txt = content(s)
                if not all(isinstance(x, str) for x in txt):
                    raise AnalysisBroken('to_sql: the text is unknown: %s' % (txt,))
                txt = ''.join(txt)
                try:
                    v = parse(txt)
                    ok = all(v({names[l]: x for l, x in a.items()}) == want(a) for a in env)
                except ValueError:
                    W.viol('syntax', 'prints `%s`, which is no condition' % txt)
                    continue
                if not ok:
                    W.viol('meaning', 'prints `%s`, which has another meaning' % txt)
    # properties of clauses and normal forms
    E1, E0, LT, NL, TR = (eq, 0), (eq, 1), (lt, 0), (nul, 0), (tru, 1)
    for f, e in (([[E1]], 1), ([[E1], [E1]], 1), ([[E0]], 0), ([[LT]], 0), ([[E1], [LT]], 0), ([[LT], [E1]], 0), ([[E1, E1]], 0), ([], 0)):
        W.op, W.show, n = 'is_equi', '%d clauses' % len(f), n + 1
        for mon in W.go('fequi', W.cnf(base, p, f), [('ref', p)]):
            if mon != (('num', e),):
                W.viol('value', 'yields %s' % (mon,))
        if len(f) == 1:
            for mon in W.go('cequi', W.make(base, p, f[0]), [('ref', p)]):
                if mon != (('num', e),):
                    W.viol('value', 'yields %s for a clause' % (mon,))
    for f, e in (([[NL]], 1), ([[TR]], 0), ([[TR, NL]], 1), ([[NL, TR]], 1), ([[TR], [NL]], 1), ([[NL], [TR]], 1), ([[TR, TR], [TR]], 0), ([], 0)):
        W.op, W.show, n = 'can_be_null', '%d clauses' % len(f), n + 1
        for mon in W.go('fnull', W.cnf(base, p, f), [('ref', p)]):
            if mon != (('num', e),):
                W.viol('value', 'yields %s' % (mon,))
        if len(f) == 1:
            for mon in W.go('cnull', W.make(base, p, f[0]), [('ref', p)]):
                if mon != (('num', e),):
                    W.viol('value', 'yields %s for a clause' % (mon,))
    return n
