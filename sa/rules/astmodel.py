"""Concrete syntax trees and types in abstract states, built from their public members and read back the same way."""
from ..containers import derives, make, node, seq
from ..engine import NULL, VOID, State
from ..ir import AnalysisBroken
from ..variants import Variants
from .catalog import World, field

A = 'm::ast::'


class Ty:
    """Keys of types: a tuple (class, category, ...)."""
    ERR = ('ErrorType',)
    NONE = ('NoneType',)

    @staticmethod
    def boolean(vec=0): return ('Boolean', vec)
    @staticmethod
    def char(n, varying=0, vec=0): return ('CharacterSequence', vec, n, varying)
    @staticmethod
    def date(vec=0): return ('Date', vec)
    @staticmethod
    def datetime(vec=0): return ('DateTime', vec)
    @staticmethod
    def bitmap(n, vec=0): return ('Bitmap', vec, n)
    @staticmethod
    def int(n, vec=0): return ('Numeric', vec, 'N_Int', n, 0)
    @staticmethod
    def float(n, vec=0): return ('Numeric', vec, 'N_Float', n, 0)
    @staticmethod
    def decimal(p, s, vec=0): return ('Numeric', vec, 'N_Decimal', p, s)


class Ast(World):
    def __init__(self, c, pid, tus):
        super().__init__(c, pid, tus)
        P, E, M = self.P, self.E, self.E.models
        self.TK = P.enums.get('m::TokenType')
        if not self.TK:
            raise AnalysisBroken('anchor vanished: m::TokenType')
        E.track_cls = True
        E.MAX_DEPTH = 300
        E.WIDEN = 400
        E.allow_recursion = lambda fn: True
        E.lower_ranges = True
        self.ftype = field(P, A + 'Expr', lambda T: T.get('ptr') and T['s'].replace('const ', '').startswith('m::Type'), 'the type')
        for o in ('operator*', 'operator->'):
            M['m::Pooled::' + o] = self.pstar
        M['m::Pool::operator()'] = self.tpool
        E.model_pred.append((lambda q, e: q.startswith('m::Pooled::operator ') and q.endswith('*') or q == 'm::Pooled::get', self.pget))
        self.V = Variants(self)
        self.kinds = None
        for q in P.enums:
            if 'N_Decimal' in P.enums[q]:
                self.kinds = P.enums[q]
        self.cats = next((P.enums[q] for q in P.enums if 'TY_Vector' in P.enums[q]), None)
        self.n = 0
        D = A + 'Designator'
        self.ftarget = field(P, D, lambda T: 'variant<' in (T.get('canon') or T['s']), 'the target')
        self.fdepth = field(P, D, lambda T: T['s'] in ('unsigned int', 'unsigned', 'int'), 'the binding depth')
        self.funique = next(f['n'] for f in P.recs[D]['fields'] if 'Optional' in P.recs[D]['types'][f['t']]['s'] or 'Pooled' in P.recs[D]['types'][f['t']]['s'])
        self.fnids = next((P.enums[q] for q in P.enums if 'FN_UDF' in P.enums[q]), None)
        self.fkinds = next((P.enums[q] for q in P.enums if 'FN_Aggregate' in P.enums[q]), None)

    # ---- types
    def tloc(self, key):
        return ('root', 'ty') + (key,)

    def ty(self, st, key):
        """('p', location of the type), st"""
        l = self.tloc(key)
        if l + ('__cls',) in st.mem:
            return ('p', l), st
        st = st.set(l + ('__cls',), ('str', 'm::' + key[0])).set(l + ('__alive',), 1)
        if len(key) > 1 and key[0] != 'FnType':
            st = st.set(l + ('category',), self.cats['TY_Vector' if key[1] else 'TY_Scalar'])
        if key[0] == 'Numeric':
            st = st.set(l + ('kind',), self.kinds[key[2]]).set(l + ('precision',), key[3]).set(l + ('scale',), key[4])
        elif key[0] == 'CharacterSequence':
            st = st.set(l + ('length',), key[2]).set(l + ('is_varying',), key[3])
        elif key[0] == 'Bitmap':
            st = st.set(l + ('length',), key[2])
        elif key[0] == 'FnType':
            r, st = self.ty(st, key[1])
            st = st.set(l + ('return_type',), r)
            L = l + ('parameter_types',)
            st = make(st, L, range(len(key[2])))
            for i, k in enumerate(key[2]):
                v, st = self.ty(st, k)
                st = st.set(node(L, i), v)
        return ('p', l), st

    def tkey(self, st, l):
        """Key of the type object at l, None if it is not known."""
        if len(l) == 3 and l[:2] == ('root', 'ty'):
            return l[2]
        g = lambda f: st.mem.get(l + (f,))
        c = g('__cls')
        if not c:
            return None
        c = c[1][3:] if c[1].startswith('m::') else c[1]
        if c in ('ErrorType', 'NoneType'):
            return (c,)
        if c == 'FnType':
            L = l + ('parameter_types',)
            if seq(st, L) is None:
                return None
            ks = [st.mem.get(node(L, i)) for i in seq(st, L)] + [g('return_type')]
            if any(not isinstance(k, tuple) or k[:1] != ('p',) for k in ks):
                return None
            ks = [self.tkey(st, k[1]) for k in ks]
            return ('FnType', ks[-1], tuple(ks[:-1]))
        fs = {'Numeric': ('kind', 'precision', 'scale'), 'CharacterSequence': ('length', 'is_varying'), 'Bitmap': ('length',)}.get(c, ())
        vs = [g('category')] + [g(f) for f in fs]
        if not all(isinstance(v, int) for v in vs):
            return None
        vs[0] = int(vs[0] == self.cats['TY_Vector'])
        if c == 'Numeric':
            vs[1] = next(k for k, v in self.kinds.items() if v == vs[1])
        return (c,) + tuple(vs)

    def tpool(self, E, e, st, fr):
        out = []
        T = fr.fn.ty(e['args'][0]) or {}
        if not (T.get('rec') and derives(self.P, T['rec'], 'm::Type')):
            return None
        for l, s in E.lv(e['args'][0], st, fr):
            k = self.tkey(s, l)
            if k is None:
                raise AnalysisBroken('%s: unknown type' % fr.fn.loc(e))
            v, s = self.ty(s, k)
            out.append((v, s))
        return out

    def pstar(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['obj'], st, fr):
            if isinstance(v, tuple) and v[:1] == ('p',):
                out.append(((('lref' if e['n'] == 'operator*' else 'p'), v[1]), s))
            else:
                out.append((('s', ('text', v)), s))
        return out

    def pget(self, E, e, st, fr):
        return self.K.val(e['obj'], st, fr)

    # ---- trees: ('des', table|None, attr, type[, {'expr': tree | 'attr': (name, nullable), 'depth': n, 'implicit': table}]) ('const', token, text, type) ('un', token, text, sub, type)
    #             ('bin', token, text, lhs, rhs, type) ('fn', name-tree, [args], func, type) ('query', id, type) ('err',)
    def token(self, st, loc, tk, text):
        st = st.set(loc + ('type',), self.TK[tk]).set(loc + ('text',), NULL if text is None else ('str', text))
        return st.set(loc + ('__alive',), 1)

    def typed(self, st, loc, ty):
        v, st = self.ty(st, ty) if ty is not None else (NULL, st)
        return st.set(loc + (self.ftype,), v)

    def tree(self, st, t, loc=None):
        """Builds t: (location, st)."""
        if loc is None:
            self.n += 1
            loc = ('root', 'x', self.n)
        k = t[0]
        cls = {'des': 'Designator', 'const': 'Constant', 'un': 'UnaryExpr', 'bin': 'BinaryExpr', 'fn': 'FnApplicationExpr', 'query': 'QueryExpr', 'err': 'ErrorExpr'}[k]
        st = st.set(loc + ('__cls',), ('str', A + cls)).set(loc + ('__alive',), 1)
        for f in self.P.recs[A + 'Expr']['fields']:
            T = self.P.recs[A + 'Expr']['types'][f['t']]
            if T.get('bt') == 'bool':
                st = st.set(loc + (f['n'],), 0)
        if k == 'des':
            _, tab, attr, ty = t[:4]
            o = t[4] if len(t) > 4 and isinstance(t[4], dict) else {}
            T = loc + (self.ftarget,)
            if 'expr' in o:
                l, st = self.tree(st, o['expr'])
                st = self.V.put(st, T, 1, ('p', l))
            elif 'attr' in o:
                a = ('root', 'attr') + o['attr']
                st = self.V.put(st, T, 2, ('p', a)).set(a + ('not_nullable',), int(not o['attr'][1])).set(a + ('name',), ('str', o['attr'][0]))
            else:
                st = self.V.put(st, T, 0)
            st = st.set(loc + (self.fdepth,), o.get('depth', 0)).set(loc + (self.funique,), NULL)
            if tab is None:
                st = self.token(self.token(self.token(st, loc + ('tok',), 'TK_IDENTIFIER', attr), loc + ('table_name',), 'TK_EOF', o.get('implicit')), loc + ('attr_name',), 'TK_IDENTIFIER', attr)
            else:
                st = self.token(self.token(self.token(st, loc + ('tok',), 'TK_DOT', '.'), loc + ('table_name',), 'TK_IDENTIFIER', tab), loc + ('attr_name',), 'TK_IDENTIFIER', attr)
        elif k == 'const':
            _, tk, text, ty = t[:4]
            st = self.token(st, loc + ('tok',), tk, text)
        elif k == 'un':
            _, tk, text, sub, ty = t[:5]
            st = self.token(st, loc + ('tok',), tk, text)
            l, st = self.tree(st, sub)
            st = st.set(loc + ('expr',), ('p', l))
        elif k == 'bin':
            _, tk, text, a, b, ty = t[:6]
            st = self.token(st, loc + ('tok',), tk, text)
            l, st = self.tree(st, a)
            r, st = self.tree(st, b)
            st = st.set(loc + ('lhs',), ('p', l)).set(loc + ('rhs',), ('p', r)).set(loc + ('common_operand_type',), NULL)
        elif k == 'fn':
            _, name, args, func, ty = t[:5]
            st = self.token(st, loc + ('tok',), 'TK_LPAR', '(')
            l, st = self.tree(st, name)
            st = st.set(loc + ('fn',), ('p', l))
            L = loc + ('args',)
            st = make(st, L, range(len(args)))
            for i, a in enumerate(args):
                l, st = self.tree(st, a)
                st = st.set(node(L, i), ('p', l))
            st = self.function(st, loc, func)
        elif k == 'query':
            _, q, ty = t[:3]
            st = self.token(st, loc + ('tok',), 'TK_LPAR', '(')
            st = st.set(loc + ('query',), ('p', ('root', 'query', q)))
        else:
            ty = None
            st = self.token(st, loc + ('tok',), 'TK_ERROR', 'err')
        return loc, self.typed(st, loc, ty)

    def function(self, st, loc, func):
        f = field(self.P, A + 'FnApplicationExpr', lambda T: T.get('ptr') and T['s'].replace('const ', '').startswith('m::Function'), 'the function')
        if func is None:
            return st.set(loc + (f,), NULL)
        l = ('root', 'func', func)
        agg = func in ('COUNT', 'MIN', 'MAX', 'SUM', 'AVG')
        st = st.set(l + ('name',), ('str', func)).set(l + ('fnid',), self.fnids.get('FN_' + func, self.fnids['FN_UDF'])).set(l + ('__alive',), 1)
        st = st.set(l + ('kind',), self.fkinds['FN_Aggregate' if agg else 'FN_Scalar'])
        return st.set(loc + (f,), ('p', l))


def shape(t):
    """Infix rendering for messages."""
    k = t[0]
    if k == 'des':
        return '%s.%s' % (t[1], t[2]) if t[1] else t[2]
    if k == 'const':
        return t[2]
    if k == 'un':
        return '%s(%s)' % (t[2] + ' ' if t[2].isalpha() else t[2], shape(t[3]))
    if k == 'bin':
        return '(%s %s %s)' % (shape(t[3]), t[2], shape(t[4]))
    if k == 'fn':
        return '%s(%s)' % (shape(t[1]), ', '.join(shape(a) for a in t[2]))
    if k == 'query':
        return '(query %s)' % t[1]
    return 'error'
