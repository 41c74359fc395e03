"""X01: expressions: equality, hashing, traversal, what they require."""
import itertools
import os

from .astmodel import Ast, Ty, shape
from .catalog import NAMES, field
from ..containers import elems, make, node, seq
from ..engine import NULL, VOID, State
from ..ir import AnalysisBroken
from ..registry import check
from ..streams import Streams

B, I, D = Ty.boolean(), Ty.int(4), Ty.double() if hasattr(Ty, 'double') else Ty.float(64)
FN = ('FnType', I, (I,))


class Exprs(Ast):
    def __init__(self, c):
        super().__init__(c, 'X01', ('/verif/drivers/expr.cpp', 'src/parse/AST.cpp', 'src/parse/ASTPrinter.cpp', 'src/catalog/Type.cpp', 'src/catalog/Schema.cpp'))
        M = self.E.models
        self.S = Streams(self)
        M['drv::node'] = lambda E, e, st, fr: [(VOID, self.event(s, ('node', l))) for l, s in E.lv(e['args'][0], st, fr)]
        M['drv::ent'] = self.ent
        M['m::Catalog::pool'] = self.pool
        M['m::Catalog::get_pool'] = lambda E, e, st, fr: [(('lref', ('root', 'pool')), st)]
        M['m::Catalog::Get'] = lambda E, e, st, fr: [(('lref', ('root', 'catalog')), st)]
        self.E.sym_compound = True
        M['strlen'] = M['std::strlen'] = self.strlen
        M['drv::number'] = self.number
        M['drv::hash'] = lambda E, e, st, fr: [(VOID, self.event(s, ('hash', v))) for v, s in self.K.val(e['args'][0], st, fr)]
        M['std::hash::operator()'] = self.hash
        M['std::rotl'] = lambda E, e, st, fr: [(E.fold('rotl', (v, k)), s2) for v, s in self.K.val(e['args'][0], st, fr) for k, s2 in self.K.val(e['args'][1], s, fr)]

    def hash(self, E, e, st, fr):
        return [(('s', ('hash', v)), s) for v, s in self.K.val(e['args'][0], st, fr)]

    def number(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            for x in E.concretise(v, s) if not isinstance(v, int) else [(v, s)]:
                if not isinstance(x[0], int):
                    raise AnalysisBroken('%s: unknown number %s' % (fr.fn.loc(e), x[0]))
                out.append((VOID, self.event(x[1], ('num', x[0]))))
        return out

    def pool(self, E, e, st, fr):
        return self.K.val(e['args'][0], st, fr)

    def strlen(self, E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            t = self.S.text(v, None, s)
            if not isinstance(t, str):
                raise AnalysisBroken('%s: length of an unknown text' % fr.fn.loc(e))
            out.append((len(t), s))
        return out

    def ent(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['args'][0], st, fr):
            g = lambda *f: s.mem.get(l + f)
            nm = lambda v: v[1] if isinstance(v, tuple) and v[0] == 'str' else None if v == NULL else v
            t = g('type')
            out.append((VOID, self.event(s, ('ent', nm(g('id', 'prefix')), nm(g('id', 'name')), self.tkey(s, t[1]) if isinstance(t, tuple) and t[0] == 'p' else None, g('constraints')))))
        return out

    def go(self, name, st, args):
        rets, thrown = self.run(self.P.one('drv::' + name), st.withmon(()), None, args)
        if thrown:
            self.viol('throws', 'throws an exception')
        return [s for _, s in rets]


FNS = {'COUNT': 1, 'SUM': 1, 'MIN': 1, 'MAX': 1, 'AVG': 1, 'ISNULL': 0, 'INT': 0, 'UDF': 0}


def des(tab, name, ty=I, **o):
    return ('des', tab, name, ty, o)


def const(tk, text, ty=I):
    return ('const', tk, text, ty)


def un(tk, text, a, ty=None):
    return ('un', tk, text, a, ty or a[-1] if not isinstance(a[-1], dict) else ty or a[-2])


def bi(tk, text, a, b, ty=I):
    return ('bin', tk, text, a, b, ty)


def fn(name, *args, ty=I):
    return ('fn', ('des', None, name, FN), tuple(args), name, ty)


def kids(t):
    return {'un': lambda: [t[3]], 'bin': lambda: [t[3], t[4]], 'fn': lambda: [t[1]] + list(t[2])}.get(t[0], lambda: [])()


def opts(t):
    return t[4] if t[0] == 'des' and len(t) > 4 and isinstance(t[4], dict) else {}


def typeof(t):
    return t[3] if t[0] == 'des' else t[-1]


def table(t):
    return t[1] or opts(t).get('implicit')


def key(t):
    """Equal exactly for equal expressions."""
    if t[0] == 'des':
        return ('des', table(t), t[2])
    if t[0] == 'const':
        return ('const', t[2])
    if t[0] == 'query':
        return t[:2]
    if t[0] == 'err':
        return ('err',)
    return (t[0], t[2] if t[0] != 'fn' else None) + tuple(key(k) for k in kids(t))


def constant(t):
    if t[0] == 'const':
        return True
    if t[0] == 'des':
        return 'expr' in opts(t) and constant(opts(t)['expr'])
    return t[0] in ('un', 'bin') and all(constant(k) for k in kids(t))


def nullable(t):
    o = opts(t)
    if t[0] == 'des':
        return nullable(o['expr']) if 'expr' in o else o['attr'][1] if 'attr' in o else True
    if t[0] == 'const':
        return t[1] == 'TK_Null'
    if t[0] == 'err':
        return False
    if t[0] == 'fn':
        return False if t[3] in ('COUNT', 'ISNULL') else True if t[3] in (None, 'UDF') else nullable(t[2][0])
    if t[0] == 'bin' and t[1] in ('TK_And', 'TK_Or'):
        dom = 'TK_False' if t[1] == 'TK_And' else 'TK_True'
        if any(k[0] == 'const' and k[1] == dom for k in kids(t)):
            return False
    return any(nullable(k) for k in kids(t))


def free(t):
    if t[0] == 'des':
        return opts(t).get('depth', 0) != 0
    return any(free(k) for k in (t[2] if t[0] == 'fn' else kids(t)))


def bound(t):
    if t[0] == 'des':
        return opts(t).get('depth', 0) == 0
    return t[0] == 'query' or any(bound(k) for k in kids(t))


def preorder(W, st, t, loc, cut=lambda t: False):
    """Locations of the nodes in pre-order (with their trees)."""
    out = [(loc, t)]
    if cut(t):
        return out
    p = lambda *f: st.mem[loc + f][1]
    if t[0] == 'un':
        ls = [p('expr')]
    elif t[0] == 'bin':
        ls = [p('lhs'), p('rhs')]
    elif t[0] == 'fn':
        ls = [p('fn')] + [st.mem[node(loc + ('args',), i)][1] for i in range(len(t[2]))]
    else:
        ls = []
    for l, k in zip(ls, kids(t)):
        out += preorder(W, st, k, l, cut)
    return out


def postorder(W, st, t, loc):
    out = []
    pre = preorder(W, st, t, loc)
    by = dict((l, t) for l, t in pre)

    def go(l, t):
        p = lambda *f: st.mem[l + f][1]
        if t[0] == 'un':
            go(p('expr'), t[3])
        elif t[0] == 'bin':
            go(p('lhs'), t[3])
            go(p('rhs'), t[4])
        elif t[0] == 'fn':
            go(p('fn'), t[1])
            for i, a in enumerate(t[2]):
                go(st.mem[node(l + ('args',), i)][1], a)
        out.append((l, t))
    go(loc, t)
    return out


def text(t):
    """How an expression is written."""
    k = t[0]
    if k == 'des':
        return '%s.%s' % (table(t), t[2]) if t[1] else t[2]
    if k == 'const':
        return t[2]
    return None


def required(t, out):
    k = t[0]
    if k == 'des':
        ty = typeof(t)
        if ty[0] not in ('FnType', 'ErrorType', 'NoneType'):
            e = (table(t), t[2], ty, 0)
            if not any(x[:2] == e[:2] for x in out):
                out.append(e)
        return
    if k == 'fn' and FNS.get(t[3]):
        e = (None, None if any(text(x) is None for x in kids(t)) else '%s(%s)' % (t[1][2], ', '.join(text(a) for a in t[2])), typeof(t), 0)
        if not any(x[:2] == e[:2] for x in out):
            out.append(e)
        return
    for x in kids(t):
        required(x, out)


def leaves():
    one, two, null = const('TK_DEC_INT', '1'), const('TK_DEC_INT', '2'), const('TK_Null', 'NULL')
    return [des('t', 'a', attr=('a', True)), des('t', 'b', attr=('b', False)), des('u', 'a', attr=('ua', True), depth=1), des(None, 'a', implicit='t', attr=('a', True)),
            des(None, 'a', expr=one), des(None, 'c', expr=bi('TK_PLUS', '+', one, des('t', 'a', attr=('a', False)))), des(None, 'n', expr=null, depth=2), des(None, 'u'),
            one, two, null, const('TK_True', 'TRUE', B), const('TK_False', 'FALSE', B), const('TK_STRING_LITERAL', '"1"', Ty.char(1)), ('query', 1, I), ('query', 2, I), ('err',)]


def trees():
    L = leaves()
    a, b, one, null = L[0], L[1], L[8], L[10]
    ub = des('t', 'p', B, attr=('p', True))
    nb = des('t', 'q', B, attr=('q', False))
    out = list(L)
    for x in (a, b, one, null, L[2], L[4], L[14]):
        out += [un('TK_MINUS', '-', x, I), un('TK_PLUS', '+', x, I)]
    out += [un('TK_TILDE', '~', a, I), un('TK_Not', 'NOT', ub, B)]
    for tk, tx in (('TK_PLUS', '+'), ('TK_MINUS', '-'), ('TK_SLASH', '/'), ('TK_LESS', '<')):
        out += [bi(tk, tx, a, b), bi(tk, tx, b, a), bi(tk, tx, b, one)]
    for tk, tx in (('TK_And', 'AND'), ('TK_Or', 'OR')):
        for x in (ub, nb, L[11], L[12], const('TK_Null', 'NULL', B)):
            for y in (ub, nb, L[11], L[12]):
                out.append(bi(tk, tx, x, y, B))
    for f in FNS:
        out += [fn(f, a), fn(f, b)]
    out += [fn('COUNT'), fn('UDF'), fn('UDF', a, b), fn('UDF', b, a), fn('UDF', one), fn('UDF', L[2]), fn('SUM', L[2]), ('fn', ('des', None, 'g', FN), (a,), None, I), fn('SUM', L[3])]
    out += [bi('TK_PLUS', '+', un('TK_MINUS', '-', a, I), bi('TK_SLASH', '/', b, one)), bi('TK_SLASH', '/', bi('TK_PLUS', '+', a, b), un('TK_TILDE', '~', b, I)),
            un('TK_TILDE', '~', un('TK_MINUS', '-', bi('TK_PLUS', '+', one, a), I), I), bi('TK_PLUS', '+', fn('SUM', a), fn('SUM', b)), bi('TK_PLUS', '+', fn('SUM', a), fn('SUM', a)),
            bi('TK_PLUS', '+', fn('UDF', a, bi('TK_SLASH', '/', one, b)), L[2]), fn('UDF', fn('UDF', a, b), fn('SUM', b)), bi('TK_PLUS', '+', a, bi('TK_PLUS', '+', b, a)),
            bi('TK_PLUS', '+', L[2], L[2]), bi('TK_PLUS', '+', fn('MIN', b), bi('TK_PLUS', '+', a, fn('MIN', b))), bi('TK_PLUS', '+', one, one), bi('TK_PLUS', '+', L[4], one),
            fn('UDF', un('TK_MINUS', '-', L[2], I)), fn('UDF', a, L[2]), fn('UDF', L[2], a, one), bi('TK_PLUS', '+', L[3], L[3]), bi('TK_PLUS', '+', L[3], a), fn('SUM', b, ty=Ty.int(8)),
            bi('TK_PLUS', '+', fn('UDF', L[3], L[0]), fn('AVG', b, ty=D)), bi('TK_PLUS', '+', one, L[14])]
    return out


@check('X01', 'Expressions are compared, traversed and classified by what they mean')
def x01(c):
    W = Exprs(c)
    T = trees()
    n = 0

    def one(what, name, st, args, want, msg):
        nonlocal n
        n += 1
        W.op = what
        for s in W.go(name, st, args):
            got = s.mon
            if got != want:
                W.viol(name, msg(got))
    num = lambda *b: tuple(('num', int(x)) for x in b)
    # classification
    for t in T:
        loc, st = W.tree(State(), t)
        W.show = shape(t)
        a = [('ref', loc)]
        if t[0] != 'query':
            if not contains(t, 'query'):
                one('is_constant', 'constant', st, a, num(constant(t)), lambda g: 'yields %s' % (g,))
                if not contains(t, 'err'):
                    one('can_be_null', 'nullable', st, a, num(nullable(t)), lambda g: 'says that the expression %s be NULL' % ('can' if g == num(1) else 'cannot'))
        one('variables', 'vars', st, a, num(free(t), bound(t)), lambda g: 'free and bound variables: %s' % (g,))
        pre = preorder(W, st, t, loc)
        nodes = lambda ls: tuple(('node', l) for l, _ in ls)
        order = lambda g: 'visits %s' % ', '.join(shape(dict(pre).get(x[1], ('err',))) for x in g)
        for name in ('pre', 'mpre'):
            one('pre-order', name, st, a, nodes(pre), order)
        for name in ('post', 'mpost'):
            one('post-order', name, st, a, nodes(postorder(W, st, t, loc)), order)
        one('visit of a single node', 'one', st, a, nodes(pre[:1]), order)
        cut = lambda t: t[0] == 'bin' and t[1] == 'TK_SLASH' or t[0] == 'un' and t[1] == 'TK_TILDE' or t[0] == 'fn' and len(t[2]) == 2
        one('skipping subtrees', 'skip', st, a, nodes(preorder(W, st, t, loc, cut)), order)
        k = next((i for i, (_, x) in enumerate(pre) if x[0] == 'const'), len(pre))
        one('stopping', 'stop', st, a, nodes(pre[:k + 1]), order)
        if not any(x[0] in ('err', 'query') or x[0] == 'fn' and x[3] is None for _, x in pre):
            req = []
            required(t, req)
            one('get_required', 'required', st, a, tuple(('ent',) + e for e in req), lambda g: 'yields %s' % ', '.join('%s.%s' % e[1:3] if e[1] else str(e[2]) for e in g))
    # designators and constants
    for t in [t for t in T if t[0] == 'des']:
        loc, st = W.tree(State(), t)
        W.show = shape(t)
        one('naming', 'naming', st, [('ref', loc)], num(t[1] is not None, table(t) is not None, table(t) is None), lambda g: 'explicit table name, table name, identifier: %s' % (g,))
    INT, FLT = ('TK_OCT_INT', 'TK_DEC_INT', 'TK_HEX_INT'), ('TK_DEC_FLOAT', 'TK_HEX_FLOAT')
    for tk in INT + FLT + ('TK_Null', 'TK_True', 'TK_False', 'TK_STRING_LITERAL', 'TK_DATE', 'TK_DATE_TIME'):
        loc, st = W.tree(State(), const(tk, 'x'))
        W.show = tk
        one('kind of a constant', 'kinds', st, [('ref', loc)], num(tk == 'TK_Null', tk in ('TK_True', 'TK_False'), tk in INT + FLT, tk in INT, tk in FLT, tk == 'TK_STRING_LITERAL', tk == 'TK_DATE', tk == 'TK_DATE_TIME'),
            lambda g: 'is_null, is_bool, is_number, is_integer, is_float, is_string, is_date, is_datetime: %s' % ', '.join(str(x[1]) for x in g))
    # equality and hashes
    E = [t for i, t in enumerate(T) if i < 45 or i % 3 == 0 or t[0] == 'fn']
    npairs = 0
    for t, u in itertools.product(E, E):
        if t[0] != u[0] and hash_key(t) % 4 and len(kids(t)) + len(kids(u)):
            continue
        loc, st = W.tree(State(), t)
        l2, st = W.tree(st, u)
        npairs += 1
        W.op, W.show = 'equality', '%s and %s' % (shape(t), shape(u))
        same = key(t) == key(u)
        for s in W.go('eq', st, [('ref', loc), ('ref', l2)]):
            if s.mon[:2] != num(same, not same):
                W.viol('eq', '== and != yield %s' % (tuple(x[1] for x in s.mon[:2]),))
            elif same and len(s.mon) == 4 and s.mon[2] != s.mon[3]:
                W.viol('hash', 'equal expressions have different hashes')
    c.ob(n + npairs)
    c.stat('pairs', npairs)
    c.stat('operations', n)
    c.use(W.E)
    c.floor('trees', len(T), 100)
    c.rule('Every query on expressions (==, !=, hash, is_constant, can_be_null, contains_free/bound_variables, get_required, the visitors) is interpreted on enumerated trees and '
           'compared with its structural definition; hashes are compared as terms.')


def contains(t, k):
    return t[0] == k or any(contains(x, k) for x in kids(t)) or 'expr' in opts(t) and contains(opts(t)['expr'], k)


def hash_key(t):
    return sum(map(ord, shape(t)))
