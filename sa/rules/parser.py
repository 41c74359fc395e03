"""P01/P02: the parser accepts exactly the reference grammar and builds the tree the grammar prescribes.

Every parse function is interpreted abstractly over an unknown token stream; the other parse functions it calls are
non-terminals (each is analysed on its own).  The reference automaton of the rule is carried along as the monitor.
"""
from ..engine import Engine, NULL, VOID, State, subst
from ..ir import AnalysisBroken, Program
from ..registry import check

# ---------------------------------------------------------------------------------------------------- reference grammar


class T:
    """Terminal(s) with a role."""
    def __init__(self, toks, role=None, clear=(), pend=None):
        self.toks, self.role, self.clear, self.pend = toks.split(), role, clear, pend


class N:
    def __init__(self, nt, role=None, clear=(), pend=None):
        self.nt, self.role, self.clear, self.pend = nt, role, clear, pend


def seq(*xs):
    return ('seq', xs)


def alt(*xs):
    return ('alt', xs)


def opt(*xs):
    return ('opt', seq(*xs))


def rep(*xs):
    return ('rep', seq(*xs))


def lst(*xs):
    return seq(*xs, rep(T('COMMA'), *xs))


INT = 'OCT_INT DEC_INT HEX_INT'
CONST = 'Null True False STRING_LITERAL DATE DATE_TIME OCT_INT DEC_INT HEX_INT DEC_FLOAT HEX_FLOAT'
BINOPS = [('ASTERISK SLASH PERCENT', 6), ('PLUS MINUS', 5), ('DOTDOT', 4),
          ('LESS GREATER LESS_EQUAL GREATER_EQUAL EQUAL BANG_EQUAL Like', 3), ('And', 1), ('Or', 0)]
NOT_LEVEL = 2
LEVEL = {t: l for ts, l in BINOPS for t in ts.split()}
STMTS = ['CreateDatabaseStmt', 'CreateTableStmt', 'CreateIndexStmt', 'DropDatabaseStmt', 'DropTableStmt', 'DropIndexStmt',
         'UseDatabaseStmt', 'SelectStmt', 'InsertStmt', 'UpdateStmt', 'DeleteStmt', 'ImportStmt']


def W(role='where'):
    return opt(N('WhereClause', role))


alias = alt(opt(seq(T('As'), T('IDENTIFIER', 'alias'))), T('IDENTIFIER', 'alias'))
item = seq(N('Expr', 'item', clear=('alias',), pend='item'), alias)
CON = ('pk', 'nn', 'uq', 'ck', 'rf', 'cond', 'rtbl', 'rattr')
G = {
    'parse': alt(N('Instruction', 'res'), N('Stmt', 'res')),
    'Instruction': seq(T('INSTRUCTION', 'instr'), T('SEMICOL')),
    'Stmt': alt(T('SEMICOL', 'semi'), seq(alt(*[N(s, 'res') for s in STMTS]), T('SEMICOL'))),
    'CreateDatabaseStmt': seq(T('Create'), T('Database'), T('IDENTIFIER', 'name')),
    'DropDatabaseStmt': seq(T('Drop'), T('Database'), opt(T('If'), T('Exists', 'ifx')), T('IDENTIFIER', 'name')),
    'UseDatabaseStmt': seq(T('Use'), T('IDENTIFIER', 'name')),
    'CreateTableStmt': seq(T('Create'), T('Table'), T('IDENTIFIER', 'name'), T('LPAR'), lst(
        T('IDENTIFIER', 'attr', pend='attr', clear=CON + ('ty',)), N('data_type', 'ty'), rep(alt(
            seq(T('Primary', 'pk', pend='con', clear=CON), T('Key')), seq(T('Not', 'nn', pend='con', clear=CON), T('Null')),
            T('Unique', 'uq', pend='con', clear=CON),
            seq(T('Check', 'ck', pend='con', clear=CON), T('LPAR'), N('Expr', 'cond'), T('RPAR')),
            seq(T('References', 'rf', pend='con', clear=CON), T('IDENTIFIER', 'rtbl'), T('LPAR'), T('IDENTIFIER', 'rattr'), T('RPAR'))
        ))), T('RPAR')),
    'DropTableStmt': seq(T('Drop'), T('Table'), opt(T('If'), T('Exists', 'ifx')), lst(T('IDENTIFIER', 'elem', pend='elem'))),
    'DropIndexStmt': seq(T('Drop'), T('Index'), opt(T('If'), T('Exists', 'ifx')), lst(T('IDENTIFIER', 'elem', pend='elem'))),
    'CreateIndexStmt': seq(T('Create'), opt(T('Unique', 'uq')), T('Index'),
                           alt(opt(T('IDENTIFIER', 'name')),
                               seq(T('If'), T('Not'), T('Exists', 'ifne'), T('IDENTIFIER', 'name'))),
                           T('On'), T('IDENTIFIER', 'table'), opt(T('Using'), T('IDENTIFIER Default', 'method')),
                           T('LPAR'), lst(alt(T('IDENTIFIER', 'key', pend='elem'), N('PExpr', 'keyexpr', pend='elem'))),
                           T('RPAR')),
    'SelectStmt': seq(N('SelectClause', 'select'), opt(N('FromClause', 'from')), W(), opt(N('GroupByClause', 'group')),
                      opt(N('HavingClause', 'having')), opt(N('OrderByClause', 'order')), opt(N('LimitClause', 'limit'))),
    'InsertStmt': seq(T('Insert'), T('Into'), T('IDENTIFIER', 'name'), T('Values'),
                      lst(T('LPAR', 'lp', pend='tuple'), lst(alt(T('Default', 'dflt', pend='val'), T('Null', 'null', pend='val'),
                                                 N('Expr', 'val', pend='val'))), T('RPAR'))),
    'UpdateStmt': seq(T('Update'), T('IDENTIFIER', 'name'), T('Set'),
                      lst(T('IDENTIFIER', 'attr', pend='item'), T('EQUAL'), N('Expr', 'item')), W()),
    'DeleteStmt': seq(T('Delete'), T('From'), T('IDENTIFIER', 'name'), W()),
    'ImportStmt': seq(T('Import'), T('Into'), T('IDENTIFIER', 'name'), T('Dsv'), T('STRING_LITERAL', 'path'),
                      opt(T('Rows'), T('DEC_INT OCT_INT', 'rows')), opt(T('Delimiter'), T('STRING_LITERAL', 'delimiter')),
                      opt(T('Escape'), T('STRING_LITERAL', 'escape')), opt(T('Quote'), T('STRING_LITERAL', 'quote')),
                      opt(T('Has'), T('Header', 'has_header')), opt(T('Skip'), T('Header', 'skip_header'))),
    'SelectClause': seq(T('Select'), alt(T('ASTERISK', 'star'), item), rep(T('COMMA'), item)),
    'FromClause': seq(T('From'), lst(alt(
        seq(T('LPAR', 'lp', clear=('alias', 'table'), pend='item'), N('SelectStmt', 'subq'), T('RPAR'), opt(T('As')), T('IDENTIFIER', 'alias')),
        seq(T('IDENTIFIER', 'table', clear=('alias', 'subq'), pend='item'), alias)))),
    'WhereClause': seq(T('Where'), N('Expr', 'cond')),
    'GroupByClause': seq(T('Group'), T('By'), lst(item)),
    'HavingClause': seq(T('Having'), N('Expr', 'cond')),
    'OrderByClause': seq(T('Order'), T('By'), lst(N('Expr', 'item', clear=('desc',), pend='item'), opt(alt(T('Ascending'), T('Descending', 'desc'))))),
    'LimitClause': seq(T('Limit'), T(INT, 'limit'), opt(T('Offset'), T(INT, 'offset'))),
    'Expr': seq(alt(N('designator', 'designator'), T(CONST, 'const'),
                    seq(T('LPAR'), alt(N('SelectStmt', 'sel'), N('Expr', 'inner')), T('RPAR')),
                    seq(T('PLUS MINUS TILDE', 'uop'), N('UExpr', 'operand')),
                    seq(T('Not', 'uop'), N('NExpr', 'operand'))),
                rep(T('LPAR', 'lpar'), alt(T('ASTERISK'), opt(lst(N('Expr', 'arg', pend='arg')))), T('RPAR')),
                rep(T(' '.join(LEVEL), 'op'), N('BExpr', 'rhs'))),
    'designator': alt(T('IDENTIFIER', 'attr'), seq(T('IDENTIFIER', 'tbl'), T('DOT', 'dot'), T('IDENTIFIER', 'attr2'))),
    'data_type': alt(
        T('Bool', 'bool'), seq(T('Char', 'char'), T('LPAR'), T('DEC_INT', 'n'), T('RPAR')),
        seq(T('Varchar', 'varchar'), T('LPAR'), T('DEC_INT', 'n'), T('RPAR')), T('Date', 'date'), T('Datetime', 'datetime'),
        seq(T('Int', 'int'), T('LPAR'), T('DEC_INT', 'n'), T('RPAR')), T('Float', 'float'), T('Double', 'double'),
        seq(T('Decimal', 'decimal'), T('LPAR'), T('DEC_INT', 'p'), opt(T('COMMA'), T('DEC_INT', 's')), T('RPAR'))),
}
EXPRLIKE = {'UExpr', 'NExpr', 'BExpr', 'PExpr'}   # calls of the expression rule with a binding strength / a required '('

# constructor arguments: 'tok:role' token, 'nt:role' subtree, '?tok:role' / '?nt:role' absent when the role is absent,
# 'flag:role' role present, 'noflag:role' role absent, 'prev' expression built so far, '*' anything
NODES = {
    'CreateDatabaseStmt': ['tok:name'], 'DropDatabaseStmt': ['tok:name', 'flag:ifx'], 'UseDatabaseStmt': ['tok:name'],
    'CreateTableStmt': ['tok:name', '*'], 'CreateTableStmt::attribute_definition': ['tok:attr', 'nt:ty', '*'],
    'PrimaryKeyConstraint': ['tok:pk'], 'NotNullConstraint': ['tok:nn'], 'UniqueConstraint': ['tok:uq'],
    'CheckConditionConstraint': ['tok:ck', 'nt:cond'], 'ReferenceConstraint': ['tok:rf', 'tok:rtbl', 'tok:rattr', '*'],
    'DropTableStmt': ['*', 'flag:ifx'], 'DropIndexStmt': ['*', 'flag:ifx'],
    'CreateIndexStmt': ['?tok:uq', 'flag:ifne', '?tok:name', 'tok:table', '?tok:method', '*'],
    'SelectStmt': ['nt:select', '?nt:from', '?nt:where', '?nt:group', '?nt:having', '?nt:order', '?nt:limit'],
    'InsertStmt': ['tok:name', '*'], 'UpdateStmt': ['tok:name', '*', '?nt:where'], 'DeleteStmt': ['tok:name', '?nt:where'],
    'SelectClause': ['*', '*', '?tok:star'], 'FromClause': ['*', '*'], 'WhereClause': ['*', 'nt:cond'],
    'GroupByClause': ['*', '*'], 'HavingClause': ['*', 'nt:cond'], 'OrderByClause': ['*', '*'],
    'LimitClause': ['*', 'tok:limit', '?tok:offset'],
    'Constant': ['tok:const'], 'QueryExpr': ['*', 'nt:sel'], 'UnaryExpr': ['tok:uop', 'nt:operand'],
    'FnApplicationExpr': ['tok:lpar', 'prev', '*'], 'BinaryExpr': ['tok:op', 'prev', 'nt:rhs'],
}
EXPRNODES = ('Constant', 'QueryExpr', 'UnaryExpr', 'FnApplicationExpr', 'BinaryExpr')
# per rule: what may be appended to a list, and which pending element that completes
APPEND = {
    'CreateTableStmt': [(['node:CreateTableStmt::attribute_definition'], 'attr'), (['node:*Constraint'], 'con')],
    'DropTableStmt': [(['box:elem'], 'elem')], 'DropIndexStmt': [(['box:elem'], 'elem')],
    'CreateIndexStmt': [(['node:Designator'], 'elem'), (['nt:keyexpr'], 'elem')],
    'InsertStmt': [(['enum:I_Default', '*'], 'val'), (['enum:I_Null', '*'], 'val'), (['enum:I_Expr', 'nt:val'], 'val'), (['*'], 'tuple')],
    'UpdateStmt': [(['tok:attr', 'nt:item'], 'item')],
    'SelectClause': [(['nt:item', '?tok:alias'], 'item')], 'GroupByClause': [(['nt:item', '?tok:alias'], 'item')],
    'FromClause': [(['nt:subq', 'tok:alias'], 'item'), (['tok:table', '?tok:alias'], 'item')],
    'OrderByClause': [(['nt:item', 'noflag:desc'], 'item')],
    'Expr': [(['nt:arg'], 'arg')],
}
RESULT = {  # class(es) a rule may yield without an error
    'Instruction': ['Instruction'], 'WhereClause': ['WhereClause'], 'SelectClause': ['SelectClause'], 'FromClause': ['FromClause'],
    'GroupByClause': ['GroupByClause'], 'HavingClause': ['HavingClause'], 'OrderByClause': ['OrderByClause'],
    'LimitClause': ['LimitClause'], 'designator': ['Designator'], 'ImportStmt': ['DSVImportStmt'],
}
RESULT.update({s: [s] for s in STMTS if s != 'ImportStmt'})


class DFA:
    """Deterministic automaton of a rule by subset construction."""
    def __init__(self, g):
        self.edges_n = []   # state -> list of (label or None, info, target)
        s = self.new()
        f = self.build(g, s)
        self.fin = f
        self.start = self.closure({s})
        self.table = {}
        work = [self.start]
        while work:
            q = work.pop()
            if q in self.table:
                continue
            moves = {}
            for n in q:
                for lab, info, t in self.edges_n[n]:
                    if lab is not None:
                        moves.setdefault(lab, ([], []))
                        moves[lab][0].append(t)
                        moves[lab][1].append(info)
            self.table[q] = {lab: (self.closure(set(ts)), infos) for lab, (ts, infos) in moves.items()}
            work += [t for t, _ in self.table[q].values()]
        self.ids = {q: i for i, q in enumerate(self.table)}
        self.delta = {self.ids[q]: {lab: (self.ids[t], infos) for lab, (t, infos) in m.items()} for q, m in self.table.items()}
        self.acc = {self.ids[q] for q in self.table if self.fin in q}
        self.q0 = self.ids[self.start]

    def new(self):
        self.edges_n.append([])
        return len(self.edges_n) - 1

    def closure(self, ss):
        out, work = set(ss), list(ss)
        while work:
            for lab, _, t in self.edges_n[work.pop()]:
                if lab is None and t not in out:
                    out.add(t)
                    work.append(t)
        return frozenset(out)

    def build(self, g, s):
        if isinstance(g, T):
            t = self.new()
            for x in g.toks:
                self.edges_n[s].append((x, g, t))
            return t
        if isinstance(g, N):
            t = self.new()
            self.edges_n[s].append(('<%s>' % g.nt, g, t))
            return t
        k, xs = g
        if k == 'seq':
            for x in xs:
                s = self.build(x, s)
            return s
        if k == 'alt':
            t = self.new()
            for x in xs:
                self.edges_n[self.build(x, s)].append((None, None, t))
            return t
        if k == 'opt':
            t = self.new()
            self.edges_n[self.build(xs, s)].append((None, None, t))
            self.edges_n[s].append((None, None, t))
            return t
        if k == 'rep':
            a = self.new()
            self.edges_n[s].append((None, None, a))
            b = self.build(xs, a)
            self.edges_n[b].append((None, None, a))
            return a
        raise AssertionError(k)


ANY = '*'


class Grammar:
    def __init__(self):
        self.dfa = {n: DFA(g) for n, g in G.items()}
        self.first2 = {n: {} for n in G}
        while True:
            ch = False
            for n, d in self.dfa.items():
                new = self.cont(d, d.q0)
                if new != self.first2[n]:
                    self.first2[n] = new
                    ch = True
            if not ch:
                break

    def f2(self, nt):
        if nt == 'PExpr':
            return {t: s for t, s in self.first2['Expr'].items() if t == 'LPAR'}
        if nt in EXPRLIKE:
            nt = 'Expr'
        return self.first2[nt]

    def firsts(self, d, q):
        out = set()
        for lab in d.delta[q]:
            if lab[0] == '<':
                out |= set(self.f2(lab[1:-1]))
            else:
                out.add(lab)
        return out

    def cont(self, d, q):
        """first token -> possible second tokens (ANY when the rule may be over after the first)."""
        out = {}
        for lab, (t, _) in d.delta[q].items():
            if lab[0] == '<':
                for t0, s in self.f2(lab[1:-1]).items():
                    o = out.setdefault(t0, set())
                    o |= {x for x in s if x != ANY}
                    if ANY in s:
                        o |= self.firsts(d, t)
                        if t in d.acc:
                            o.add(ANY)
            else:
                o = out.setdefault(lab, set())
                o |= self.firsts(d, t)
                if t in d.acc:
                    o.add(ANY)
        return out


class Mon(tuple):
    """q: reference state or 'dead'; err: an error was reported; toks: the two lookahead tokens; n: tokens consumed (0/1);
    roles: role -> value; pend: pending list elements; prev: expression built so far; num: a number was converted"""
    F = ('q', 'err', 'toks', 'n', 'roles', 'pend', 'prev', 'num')

    def __new__(cls, *a):
        return tuple.__new__(cls, a)

    def __getattr__(self, n):
        return self[Mon.F.index(n)]

    def w(self, **kw):
        return Mon(*[kw.get(f, v) for f, v in zip(Mon.F, self)])

    def role(self, r):
        return dict(self.roles).get(r)

    def setrole(self, info, v):
        d = dict(self.roles)
        for c in info.clear:
            d.pop(c, None)
        if info.role:
            d[info.role] = v
        m = self
        if info.pend:
            m = m.w(pend=m.pend | {info.pend})
        return m.w(roles=tuple(sorted(d.items())))


def remon(m):
    return m if isinstance(m, Mon) else Mon(*m)


class Analysis:
    def __init__(self, P, GR):
        self.P, self.GR = P, GR
        self.tk = {n[3:]: v for n, v in P.enums['m::TokenType'].items() if n.startswith('TK_')}
        self.names = {v: n for n, v in self.tk.items()}
        self.lang = {}      # key -> (where, msg, path)   language violations
        self.tree = {}      # tree violations
        self.paths = 0
        self.calls = {}     # rule -> set of (role context, binding strength argument)
        self.strength = {}  # argument -> {'took': set, 'left': set}
        self.visited = set()
        self.nodes = 0
        self.appends = 0
        self.debug = False

    def fnames(self):
        out = {}
        for n in G:
            out['m::ast::Parser::' + (n if n == 'parse' else 'parse_' + n)] = n
        return out

    def run_rule(self, nt, prec=None):
        P, GR = self.P, self.GR
        d = GR.dfa[nt]
        q = 'm::ast::Parser::' + (nt if nt == 'parse' else 'parse_' + nt)
        fn = P.one(q)
        E = Engine(P)
        E.value_classes = {'m::ast::Token', 'm::Pooled'}
        tk, names = self.tk, self.names
        ALLT = frozenset(tk.values())
        LA = ('root', 'this', 'lookahead_')
        fnames = self.fnames()
        A = self

        def types(st, tok):
            v = E.simplify(st.mem.get(('d', tok, 'type'), None), st)
            if isinstance(v, int):
                return {v}
            return st.dom[v]

        def show(st):
            m = remon(st.mon)

            def one(t):
                ts = sorted(names.get(x, '?') for x in types(st, t))
                return ts[0] if len(ts) == 1 else '{%s%s}' % (', '.join(ts[:6]), ', ...' if len(ts) > 6 else '')
            return 'rule %s, lookahead %s %s' % (nt, one(m.toks[0]), one(m.toks[1]))

        def bad(book, key, st, node, fr, msg):
            key = '%s:%s' % (nt, key)
            where = '%s (%s)' % (fr.fn.loc(node), fr.fn.q) if fr is not None else '%s (%s)' % (fn.loc(), fn.q)
            if key not in book:
                book[key] = (where, msg + ' [' + show(st) + ']', st.notes())

        def tid(x):
            return ('s', ('tok', x))

        def drop_tok(st, x):
            """the token is no longer known by this identity"""
            st = E.kill_prefix(('d', x), st).copy()
            st.dom.pop(('s', ('tt', x)), None)
            return rename_tok(st, x, tid('gone'))

        def rename_tok(st, x, y):
            st = st.copy()
            st.mem = {subst(l, x, y): subst(v, x, y) for l, v in st.mem.items()}
            st.dom = {subst(k, x, y): v for k, v in st.dom.items()}
            st.mon = remon(subst(st.mon, x, y))
            return st

        def set_tok(st, t):
            st = st.copy()
            s = ('s', ('tt', t))
            st.mem[('d', t, 'type')] = s
            st.dom[s] = ALLT
            return st

        def shift(st, role):
            """the first token was consumed (in a role); the second one becomes the first one"""
            m = remon(st.mon)
            if role is None or m.err:
                st = drop_tok(st, tid(0))
            else:
                st = rename_tok(drop_tok(st, tid(role)), tid(0), tid(role))
            st = rename_tok(st, tid(1), tid(0))
            st = set_tok(st, tid(1))
            return st.withmon(remon(st.mon).w(toks=(tid(0), tid(1))))

        def forget(st):
            """after an error the consumed tokens do not matter"""
            for x in {v for v in all_toks(st)}:
                st = drop_tok(st, x)
            return st

        def all_toks(st):
            out = set()
            for l in st.mem:
                if l[0] == 'd' and len(l) > 1 and isinstance(l[1], tuple) and l[1][:1] == ('s',) and l[1][1][0] == 'tok' and l[1][1][1] not in (0, 1, 'gone'):
                    out.add(l[1])
            for k in st.dom:
                if k[1][0] == 'tt' and k[1][1][1][1] not in (0, 1, 'gone'):
                    out.add(k[1][1])
            return out

        def lookahead(st):
            """tokens in the lookahead buffer, by identity"""
            return tuple(E.origin(LA + (('i', i),), st) for i in range(2))

        def synced(st, node, fr):
            m = remon(st.mon)
            la = lookahead(st)
            if la[0] != ('d', m.toks[0]):
                if A.debug: print('SYNC', la, m.toks, [(l, v) for l, v in st.mem.items() if l[0] in ('root','d')])
                bad(A.lang, 'sync', st, node, fr, 'the current token is not the first token not yet consumed')
                return False
            return True

        def advance(st, types0, label_of, node, fr):
            """Moves the reference by the current token: list of states."""
            m = remon(st.mon)
            groups = {}
            for t in types0:
                n = names[t]
                if m.err or n == 'ERROR':
                    groups.setdefault(('err', None), set()).add(t)
                elif m.q == 'dead' or n not in d.delta[m.q]:
                    groups.setdefault(('dead', None), set()).add(t)
                else:
                    tgt, infos = d.delta[m.q][n]
                    groups.setdefault((tgt, tuple(id(i) for i in infos)), set()).add(t)
            out = []
            for (tgt, k), ts in groups.items():
                s = st.copy()
                v = s.mem[('d', m.toks[0], 'type')]
                if not isinstance(v, int):
                    s.dom[v] = frozenset(ts)
                mm = m
                role = None
                if tgt == 'err':
                    mm = mm.w(err=1, roles=(), pend=frozenset(), prev=None)
                elif tgt == 'dead':
                    mm = mm.w(q='dead')
                else:
                    infos = d.delta[m.q][names[next(iter(ts))]][1]
                    for info in infos:
                        if info.pend and info.pend in mm.pend and len(infos) == 1:
                            bad(A.tree, 'dropped:' + info.pend, s, node, fr, 'an element of the %s list is parsed but not recorded' % info.pend)
                        role = role or info.role
                        mm = mm.setrole(info, ('tok', ('d', m.toks[0])))
                    mm = mm.w(q=tgt)
                    if nt == 'Expr' and k and any(i.role == 'op' for i in infos):
                        A.strength.setdefault(prec, {'took': set(), 'left': set()})['took'] |= {names[t] for t in ts}
                s.mon = mm.w(n=1)
                if mm.err and not m.err:
                    s = forget(s)
                out.append((s, role))
            return out

        def lex_next(E, e, st, fr):
            out = []
            m = remon(st.mon)
            for s, role in advance(st, types(st, m.toks[0]), None, e, fr):
                s = shift(s, role)
                out.append((('obj', ('d', tid(1))), s))
            return out
        E.models['m::ast::Lexer::next'] = lex_next

        # -- containers
        def arr_idx(E, e, st, fr):
            out = []
            idx = e['args'][0] if e.get('obj') is not None else e['args'][1]
            obj = e['obj'] if e.get('obj') is not None else e['args'][0]
            for l, s in E.lv(obj, st, fr):
                for i, s2 in E.ev(idx, s, fr):
                    i = E.simplify(i, s2)
                    if l[0] == 'g' or not isinstance(i, int):
                        v, s2 = E.fresh(s2, ('arr', E.site(e, fr)), frozenset((0, 1)))
                        tl = ('t', fr.depth, E.site(e, fr))
                        s2 = s2.set(tl, v)
                        out.append((('lref', tl), s2))
                    else:
                        out.append((('lref', l + (('i', i),)), s2))
            return out
        E.models['std::array::operator[]'] = arr_idx
        E.models['std::array::at'] = arr_idx
        E.models['std::array::size'] = lambda E, e, st, fr: [(2, st)]
        E.models['std::array::back'] = lambda E, e, st, fr: [(('lref', l + (('i', 1),)), s) for l, s in E.lv(e['obj'], st, fr)]
        E.models['std::array::front'] = lambda E, e, st, fr: [(('lref', l + (('i', 0),)), s) for l, s in E.lv(e['obj'], st, fr)]

        def get0(E, e, st, fr):
            i = int(''.join(c for c in e['ta'][0] if c.isdigit()))
            return [(('lref', l + (('i', i),)), s) for l, s in E.lv(e['args'][0], st, fr)]
        E.models['std::get'] = get0

        # -- recovery: skips tokens after an error
        def artificial(E, e, st, fr):
            out = []
            for s in E.ev_list_states(e['args'], st, fr):
                s = s.copy()
                s.mem[('artificial', 'type')] = tk['EOF']
                out.append((('obj', ('artificial',)), s))
            return out
        E.models['m::ast::Token::CreateArtificial'] = artificial

        def diag(E, e, st, fr):
            m = remon(st.mon)
            if not m.err and m.q != 'dead':
                c = GR.cont(d, m.q)
                t0s = {names[t] for t in types(st, m.toks[0])} - {'ERROR'}
                t1s = {names[t] for t in types(st, m.toks[1])} - {'ERROR'}
                w = [(a, b) for a in sorted(t0s) if a in c for b in sorted(t1s) if ANY in c[a] or b in c[a]]
                if w and not m.num:
                    bad(A.lang, 'reject:%s' % w[0][0], st, e, fr, 'valid input is rejected: the rule continues with %s %s' % w[0])
            if not m.err:
                st = forget(st.withmon(m.w(err=1, roles=(), pend=frozenset(), prev=None)))
            return [(('lref', ('root', 'err')), st)]
        E.models['m::Diagnostic::e'] = diag
        E.models['m::Diagnostic::err'] = diag

        # -- non-terminals
        def call_nt(name, E, e, st, fr):
            if not synced(st, e, fr):
                return []
            args = e.get('args', [])
            states = [(st, None)]
            lab = name
            if name == 'Expr':
                states = []
                a0 = args[0] if args else None
                for v, s in (E.ev(a0, st, fr) if a0 is not None else [(0, st)]):
                    for v2, s2 in E.concretise(v, s):
                        if len(args) > 1:
                            for _, s3 in E.take(E, args[1], s2, fr):
                                states.append((s3, v2))
                        else:
                            states.append((s2, v2))
            out = []
            for s, arg in states:
                m = remon(s.mon)
                val = None
                if m.err:
                    A.calls.setdefault(name, set()).add(('err', arg if isinstance(arg, int) else None))
                    val = ('p', ('nt', name, 'err'))
                    outs = [(m, 1)]
                elif m.q == 'dead':
                    val = ('p', ('nt', name, 'dead'))
                    outs = [(m, 0), (m.w(err=1), 1)]
                else:
                    cands = ['<%s>' % name] + (['<%s>' % x for x in EXPRLIKE] if name == 'Expr' else [])
                    labs = [x for x in cands if x in d.delta[m.q]]
                    if not labs:
                        A.calls.setdefault(name, set()).add(('dead', arg))
                        val = ('p', ('nt', name, 'dead'))
                        outs = [(m.w(q='dead'), 0), (m.w(err=1), 1)]
                    else:
                        l = labs[0]
                        tgt, infos = d.delta[m.q][l]
                        # is the call directed to the right rule?
                        here = GR.f2(l[1:-1])
                        t0s = types(s, m.toks[0])
                        t1s = types(s, m.toks[1])
                        for l2 in d.delta[m.q]:
                            if l2 == l:
                                continue
                            other = GR.f2(l2[1:-1]) if l2[0] == '<' else {l2: {ANY}}
                            for t0 in t0s:
                                a = names[t0]
                                if a not in other:
                                    continue
                                if l2[0] != '<':
                                    if a not in here or True:
                                        bad(A.lang, 'misdirected:%s:%s' % (name, a), s, e, fr, 'input starting with %s is handled by rule %s' % (a, name))
                                    continue
                                for t1 in t1s:
                                    b = names[t1]
                                    if (ANY in other[a] or b in other[a]) and not (a in here and (ANY in here[a] or b in here[a])):
                                        bad(A.lang, 'misdirected:%s:%s' % (name, a), s, e, fr, 'input starting with %s %s is handled by rule %s' % (a, b, name))
                        info = infos[0]
                        val = ('p', ('nt', name, info.role))
                        if info.pend and info.pend in m.pend:
                            bad(A.tree, 'dropped:' + info.pend, s, e, fr, 'an element of the %s list is parsed but not recorded' % info.pend)
                        m2 = m.setrole(info, ('nt', val[1])).w(q=tgt)
                        if name == 'Expr':
                            ctx = {'<UExpr>': 'unary', '<NExpr>': 'not'}.get(l, 'top')
                            if l == '<BExpr>':
                                op = m.role('op')
                                ctx = ('op',) + tuple(sorted(names[t] for t in types(s, op[1][1]))) if op else 'top'
                            A.calls.setdefault(name, set()).add((ctx, arg))
                        if info.role in ('designator', 'inner'):
                            m2 = m2.w(prev=val)
                        outs = [(m2, 0), (m2.w(err=1, roles=(), pend=frozenset(), prev=None), 1)]
                for m2, er in outs:
                    s2 = s.withmon(m2)
                    if m2.err and not m.err:
                        s2 = forget(s2)
                    s2 = drop_tok(drop_tok(s2, tid(0)), tid(1))
                    s2 = set_tok(set_tok(s2, tid(0)), tid(1))
                    s2 = s2.withmon(remon(s2.mon).w(toks=(tid(0), tid(1)), n=1))
                    s2 = E.copy_obj(('d', tid(0)), LA + (('i', 0),), s2)
                    s2 = E.copy_obj(('d', tid(1)), LA + (('i', 1),), s2)
                    out.append((val, s2))
            return out
        for qn, n in fnames.items():
            E.models[qn] = (lambda n: lambda E, e, st, fr: call_nt(n, E, e, st, fr))(n)

        # -- tree construction
        def describe(a, st, fr):
            """[(description, st)] of a constructor or append argument"""
            T_ = fr.fn.ty(a)
            rec = (T_ or {}).get('rec')
            if rec == 'm::ast::Token' and not T_.get('ptr'):
                return [(('tok', E.origin(l, s)), s) for l, s in E.lv(a, st, fr)]
            out = []
            if rec in ('std::vector', 'std::basic_string', 'm::Pooled') and not T_.get('ptr'):
                return [(('vec',), s) for s in E.ev_list_states([a], st, fr)]
            for v, s in E.take(E, a, st, fr):
                if isinstance(v, tuple) and v and v[0] == 'lref':
                    v, s = E.read(v[1], T_, s)
                v = E.simplify(v, s)
                if isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'nt':
                    out.append((('nt', v[1]), s))
                elif isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'node':
                    out.append((('node', v[1][1]) + v[1][2:], s))
                else:
                    out.append((v, s))
            return out

        def matches(pat, v, m):
            if pat == '*':
                return True
            o = pat[0] == '?'
            kind, r = pat.lstrip('?').split(':', 1) if ':' in pat else (pat, None)
            if kind == 'prev':
                pv = m.prev
                return pv is not None and (v == ('nt', pv[1]) if pv[1][0] == 'nt' else v[:2] == ('node', pv[1][1]))
            if kind == 'flag':
                return v == (1 if m.role(r) is not None else 0)
            if kind == 'noflag':
                return v == (0 if m.role(r) is not None else 1)
            if kind == 'enum':
                return v == A.ENUM.get(r)
            if kind == 'node':
                return isinstance(v, tuple) and v[0] == 'node' and (v[1] == r or r[0] == '*' and v[1].endswith(r[1:]))
            if kind == 'box':
                return isinstance(v, tuple) and v[0] == 'node' and len(v) > 2 and v[2] == m.role(r)
            want = m.role(r)
            if want is None:
                if not o:
                    return False
                return v == (('tok', ('artificial',)) if kind == 'tok' else NULL)
            return v == want

        def make_node(E, e, st, fr):
            cls = e['ta'][0].replace('struct ', '').replace('class ', '').strip()
            short = cls.split('m::ast::', 1)[-1]
            A.nodes += 1
            res = [((), st)]
            for a in e['args']:
                ns = []
                for vs, s in res:
                    for v, s2 in describe(a, s, fr):
                        ns.append((vs + (v,), s2))
                res = ns
            out = []
            for vs, s in res:
                m = remon(s.mon)
                val = ('p', ('node', short))
                if not m.err and m.q != 'dead':
                    pats = NODES.get(short)
                    if short == 'Designator':
                        if nt == 'designator':
                            pats = ['tok:attr2'] if False else (['tok:dot', 'tok:tbl', 'tok:attr2'] if m.role('dot') is not None else ['tok:attr'])
                        else:
                            pats = ['tok:key']
                    if short == 'DSVImportStmt':
                        chk_import(vs, s, e, fr)
                    elif short == 'Token':
                        val = ('p', ('node', 'Token', vs[0]))
                    elif pats is not None:
                        if len(pats) != len(vs):
                            bad(A.tree, 'arity:' + short, s, e, fr, '%s is built from %d parts instead of %d' % (short, len(vs), len(pats)))
                        else:
                            for i, (p, v) in enumerate(zip(pats, vs)):
                                if not matches(p, v, m):
                                    bad(A.tree, 'part:%s:%d' % (short, i), s, e, fr, 'part %d of %s is not the %s of the parsed text' % (i + 1, short, p.split(':')[-1]))
                        if short in RESULT.get(nt, ()) and m.pend:
                            bad(A.tree, 'dropped:' + sorted(m.pend)[0], s, e, fr, 'an element of the %s list is parsed but not recorded' % sorted(m.pend)[0])
                        if short == 'FnApplicationExpr' and 'arg' in m.pend:
                            bad(A.tree, 'dropped:arg', s, e, fr, 'an argument is parsed but not recorded')
                    if short in EXPRNODES and nt == 'Expr':
                        s = s.withmon(remon(s.mon).w(prev=val))
                elif short == 'Token':
                    val = ('p', ('node', 'Token', ('vec',)))
                out.append((val, s))
            return out

        def chk_import(vs, s, e, fr):
            m = remon(s.mon)
            l = chk_import.loc
            for l, s2 in E.lv(e['args'][0], s, fr):
                for f in ('path', 'rows', 'delimiter', 'escape', 'quote'):
                    want = m.role(f)
                    got = ('tok', E.origin(l + (f,), s2))
                    if want is None:
                        if got[1][:1] == ('d',):
                            bad(A.tree, 'import:' + f, s, e, fr, '%s of the import is set although the text does not give it' % f)
                    elif got != want:
                        bad(A.tree, 'import:' + f, s, e, fr, '%s of the import is not the one of the parsed text' % f)
                for f in ('has_header', 'skip_header'):
                    v, s3 = E.read(l + (f,), None, s2)
                    if E.simplify(v, s3) != (1 if m.role(f) is not None else 0):
                        bad(A.tree, 'import:' + f, s, e, fr, '%s of the import does not reflect the parsed text' % f)
        chk_import.loc = None
        E.models['std::make_unique'] = make_node

        def append(E, e, st, fr):
            T_ = fr.fn.ty(e['obj'])
            A.appends += 1
            res = [((), st)]
            for a in e['args']:
                ns = []
                for vs, s in res:
                    for v, s2 in describe(a, s, fr):
                        ns.append((vs + (v,), s2))
                res = ns
            out = []
            for vs, s in res:
                m = remon(s.mon)
                if not m.err and m.q != 'dead' and nt in APPEND:
                    ok = None
                    for pats, pend in APPEND[nt]:
                        if len(pats) == len(vs) and all(matches(p, v, m) for p, v in zip(pats, vs)):
                            if pats[0].startswith('enum') and m.role({'I_Default': 'dflt', 'I_Null': 'null', 'I_Expr': 'val'}[pats[0][5:]]) is None:
                                continue
                            ok = pend
                            break
                    if ok is None:
                        bad(A.tree, 'append:%d' % len(vs), s, e, fr, 'the element recorded in a list is not the parsed one')
                    elif ok not in m.pend:
                        bad(A.tree, 'twice:' + ok, s, e, fr, 'an element of the %s list is recorded twice' % ok)
                    else:
                        d2 = dict(m.roles)
                        if nt == 'InsertStmt' and ok == 'val':
                            for r in ('dflt', 'null', 'val'):
                                d2.pop(r, None)
                        if nt == 'InsertStmt' and ok == 'tuple' and 'val' in m.pend:
                            bad(A.tree, 'dropped:val', s, e, fr, 'a value is parsed but not recorded')
                        m = m.w(pend=m.pend - {ok}, roles=tuple(sorted(d2.items())))
                        s = s.withmon(m)
                out.append((VOID, s))
            return out
        E.models['std::vector::push_back'] = append
        E.models['std::vector::emplace_back'] = append

        # numbers
        def strto(E, e, st, fr):
            out = []
            for v, s in E.ev(e['args'][0], st, fr):
                m = remon(s.mon)
                src = None
                # text of a token: the location of the text identifies the token
                src = text_owner(v, s)
                s = s.withmon(m.w(num=1))
                out.append((('op', 'num', src) if src is not None else ('op', 'num', ('x',)), s))
            return out

        def text_owner(v, s):
            if isinstance(v, tuple) and v:
                if v[0] in ('tokref',):
                    return v[1]
            return None
        for f in ('strtoul', 'strtoull', 'strtol', 'strtoll', 'std::strtoul', 'atoi', 'std::stoul', 'std::stoi'):
            E.models[f] = strto

        def pooled_deref(E, e, st, fr):
            out = []
            for l, s in E.lv(e['obj'], st, fr):
                o = None
                for i in range(len(l), 0, -1):
                    if l[i - 1] == 'text':
                        o = E.origin(l[:i - 1], s)
                out.append((('tokref', o) if o is not None else ('str', '?'), s))
            return out
        E.model_pred.append((lambda q, e: e.get('op') == '*' and 'Pooled' in q, pooled_deref))

        def has_text(E, e, st, fr):
            out = []
            for l, s in E.lv(e['obj'], st, fr):
                o = E.origin(l[:-1], s) if l and l[-1] == 'text' else None
                if o == ('artificial',):
                    out.append((0, s))
                elif o is not None and o[0] == 'd':
                    out.append((1, s))
                else:
                    v, s = E.fresh(s, ('hastext', E.site(e, fr)), frozenset((0, 1)))
                    out.append((v, s))
            return out
        E.model_pred.append((lambda q, e: e.get('n') == 'has_value' and 'Pooled' in q, has_text))

        # types
        TYPES = {'Get_Boolean': ('bool', []), 'Get_Char': ('char', ['n']), 'Get_Varchar': ('varchar', ['n']), 'Get_Date': ('date', []),
                 'Get_Datetime': ('datetime', []), 'Get_Integer': ('int', ['n']), 'Get_Float': ('float', []),
                 'Get_Double': ('double', []), 'Get_Decimal': ('decimal', ['p', 's'])}

        def get_type(name):
            def h(E, e, st, fr):
                res = [((), st)]
                for a in e['args'][1:]:
                    ns = []
                    for vs, s in res:
                        for v, s2 in E.ev(a, s, fr):
                            ns.append((vs + (E.simplify(v, s2),), s2))
                    res = ns
                out = []
                for vs, s in res:
                    m = remon(s.mon)
                    if nt == 'data_type' and not m.err and m.q != 'dead':
                        role, nums = TYPES[name]
                        if m.role(role) is None:
                            bad(A.tree, 'type:' + name, s, e, fr, 'a %s is built although the text names another type' % name[4:])
                        for r, v in zip(nums, vs):
                            want = m.role(r)
                            if want is None:
                                if v != 0:
                                    bad(A.tree, 'num:%s:%s' % (name, r), s, e, fr, 'the default %s of a %s is not 0' % (r, name[4:]))
                            elif v != ('op', 'num', want[1]):
                                bad(A.tree, 'num:%s:%s' % (name, r), s, e, fr, 'the %s of a %s is not the number of the text' % (r, name[4:]))
                    out.append((('p', ('node', 'Type')), s))
                return out
            return h
        for n in TYPES:
            E.models['m::Type::' + n] = get_type(n)
        E.models['m::Type::Get_Error'] = lambda E, e, st, fr: [(('p', ('node', 'ErrorType')), st)]

        # -- start
        st = State()
        t0, t1 = tid(0), tid(1)
        for i, t in enumerate((t0, t1)):
            sy = ('s', ('tt', t))
            st.mem[('d', t, 'type')] = sy
            st.dom[sy] = ALLT
            st = E.copy_obj(('d', t), LA + (('i', i),), st)
        st.mon = Mon(d.q0, 0, (t0, t1), 0, (), frozenset(), None, 0)
        if nt == 'Instruction':
            st.dom[('s', ('tt', t0))] = frozenset((tk['INSTRUCTION'],))
        args = None
        if nt == 'Expr':
            args = []
            for i, p in enumerate(fn.params):
                args.append(('val', prec if i == 0 else NULL))
        rets, thrown = E.run(fn, st, args=args) if args is not None else E.run(fn, st)
        for t, s in thrown:
            bad(A.lang, 'throw:' + t.typ, s, t.node, None, 'an exception leaves the parser')
        ok = 0
        for v, s in rets:
            A.paths += 1
            if not synced(s, {}, None):
                continue
            m = remon(s.mon)
            if nt == 'parse' and not m.n and types(s, m.toks[0]) - {tk['EOF']}:
                bad(A.lang, 'progress', s, {}, None, 'the parser returns without consuming a token')
            if m.err:
                continue
            if m.q == 'dead':
                bad(A.lang, 'accept:dead', s, {}, None, 'text outside the grammar is accepted')
                continue
            if m.q not in d.acc:
                bad(A.lang, 'accept:incomplete', s, {}, None, 'an incomplete sentence is accepted')
                continue
            if nt == 'Stmt' and m.role('res') is None and m.role('semi') is None:
                continue
            ok += 1
            c = GR.cont(d, m.q)
            t0s = {names[t] for t in types(s, m.toks[0])} - {'ERROR'}
            t1s = {names[t] for t in types(s, m.toks[1])} - {'ERROR'}
            if nt == 'Expr':
                A.strength.setdefault(prec, {'took': set(), 'left': set()})['left'] |= t0s & set(LEVEL)
                t0s -= set(LEVEL)
            w = [a for a in sorted(t0s) if a in c and (ANY in c[a] or c[a] & t1s)]
            if w and nt not in ('parse',):
                bad(A.lang, 'early:' + w[0], s, {}, None, 'the rule ends although it continues with %s' % w[0])
            # the result
            val = E.simplify(v, s)
            if nt == 'Expr':
                if m.prev is None or val != m.prev:
                    bad(A.tree, 'result', s, {}, None, 'the returned expression is not the parsed one')
            elif nt in ('Stmt', 'parse'):
                r = m.role('res')
                if r is not None and val != ('p', r[1]):
                    bad(A.tree, 'result', s, {}, None, 'the returned statement is not the parsed one')
            else:
                cls = val[1][1] if isinstance(val, tuple) and val[0] == 'p' and val[1][0] == 'node' else None
                want = RESULT.get(nt)
                if cls is not None and cls.startswith('Error'):
                    bad(A.lang, 'silent', s, {}, None, 'an error node is returned without an error message')
                elif want and cls not in want:
                    bad(A.tree, 'result', s, {}, None, 'the rule yields %s' % (cls,))
        if not ok and not any(k.startswith(nt + ':') for k in A.lang):
            bad(A.lang, 'none', rets[0][1] if rets else st, {}, None, 'no text is accepted')
        self.visited |= {(P.funcs[k].q, P.funcs[k].file) for k in E.visited_funcs if k in P.funcs}

    def check_strength(self):
        """Operator precedence and associativity from the recursion arguments."""
        levels = sorted(set(LEVEL.values()))
        bad = []
        for ctx, arg in sorted(self.calls.get('Expr', ()), key=repr):
            if ctx in ('err', 'dead') or arg is None:
                continue
            if not isinstance(arg, int):
                raise AnalysisBroken('P02: binding strength of a recursive call is not constant')
            s = self.strength.get(arg)
            if s is None:
                raise AnalysisBroken('P02: binding strength %s was not analysed' % arg)
            took, left = s['took'], s['left']
            if ctx == 'top':
                want = set(LEVEL)
            elif ctx == 'unary':
                want = set()
            elif ctx == 'not':
                want = {t for t, l in LEVEL.items() if l > NOT_LEVEL}
            else:
                ls = {LEVEL[t] for t in ctx[1:] if t in LEVEL}
                if not ls:
                    continue
                if len(ls) > 1:
                    want = None
                else:
                    want = {t for t, l in LEVEL.items() if l > max(ls)}
            if want is None:
                bad.append(('prec:mixed', 'operators of different precedence (%s) are given the same right operand' % ', '.join(ctx[1:])))
                continue
            if took != want or left != set(LEVEL) - want:
                x = sorted(took ^ want) or sorted(left ^ (set(LEVEL) - want))
                name = ctx if isinstance(ctx, str) else 'operator ' + '/'.join(ctx[1:])
                bad.append(('prec:%s:%s' % (name, x[0]), 'in the operand of %s, operator %s %s' % (
                    {'top': 'a whole expression', 'unary': 'a sign', 'not': 'NOT'}.get(name, name), x[0],
                    'is wrongly taken into the operand' if x[0] in took - want else 'is wrongly left outside')))
        return bad


_CACHE = {}


def analyse():
    if 'A' in _CACHE:
        return _CACHE['A']
    P = Program(['src/parse/Parser.cpp'])
    GR = Grammar()
    A = Analysis(P, GR)
    A.ENUM = {}
    for q, e in P.enums.items():
        if q.endswith('element_type'):
            A.ENUM.update(e)
    if 'I_Null' not in A.ENUM:
        for q, e in P.enums.items():
            for n in e:
                if n in ('I_Null', 'I_Default', 'I_Expr'):
                    A.ENUM[n] = e[n]
    for nt in G:
        if nt != 'Expr':
            A.run_rule(nt)
    A.run_rule('Expr', 0)
    done = {0}
    while True:
        todo = {a for c, a in A.calls.get('Expr', ()) if isinstance(a, int)} - done
        if not todo:
            break
        for a in sorted(todo):
            A.run_rule('Expr', a)
            done.add(a)
    A.levels = done
    _CACHE['A'] = A
    return A


def finish(C, A, book, rule):
    for k, (where, msg, path) in book.items():
        C.viol(C.pid + ':' + k, where, msg, path)
    C.funcs |= {'%s (%s)' % x for x in A.visited}
    C.ob(A.paths + A.nodes + A.appends)
    C.floor('parse rules', len(G), 25)
    C.floor('paths through the rules', A.paths, 150)
    C.floor('tree nodes built', A.nodes, 60)
    C.floor('list elements recorded', A.appends, 15)
    C.floor('binding strengths of the expression rule', len(A.levels), 5)
    C.rule(rule)
    C.assumptions += ['the scanner delivers one token per call (property L01)',
                      'deviations of the documented grammar that the parser has always had are part of the reference: LIKE and .. as operators, '
                      'an alias without AS in GROUP BY, left-associative comparisons, NOT inside operands, a parenthesised index key may continue as an expression']


@check('P01', 'The parser accepts exactly the documented statements')
def run_lang(C):
    A = analyse()
    finish(C, A, A.lang, 'Product of every parse function (interpreted abstractly over sets of tokens, other parse functions as '
           'non-terminals) with the reference automaton of its grammar rule: text is accepted without an error message iff the '
           'reference accepts it, errors are reported exactly when no continuation exists, the rule is left only when it '
           'cannot continue, calls go to the rule that fits the lookahead, and every call of the parser consumes input.')


@check('P02', 'The parser builds the tree of the parsed text')
def run_tree(C):
    A = analyse()
    for k, msg in A.check_strength():
        C.viol('P02:' + k, 'src/parse/Parser.cpp (m::ast::Parser::parse_Expr)', msg)
    finish(C, A, A.tree, 'Provenance of every constructor argument and list element of the syntax tree: the token or subtree '
           'with the role the grammar gives it; list elements are recorded exactly once; the operators taken into an operand '
           'are exactly those that bind tighter (left associativity).')
