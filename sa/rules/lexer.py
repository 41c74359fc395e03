"""L01: the scanner recognises exactly the documented token language.

The scanner is interpreted abstractly from its entry point over an unknown character stream.  Every character is a
symbol with a finite set of values (-1 = end of input, 0..255), split only where the code or the reference automaton
distinguishes characters.  The reference automaton below is the deterministic automaton of doc/syntax-tokens.md; it is
carried along as the monitor, i.e. the analysis builds the product of the scanner with the reference.
"""
from ..engine import Engine, NULL, VOID, State, syms
from ..ir import AnalysisBroken, Program, walk
from ..registry import check

EOF = -1
ALL = frozenset(range(-1, 256))
DIG = frozenset(map(ord, '0123456789'))
OCT = frozenset(map(ord, '01234567'))
HEXD = DIG | frozenset(map(ord, 'abcdefABCDEF'))
ALPHA = frozenset(list(range(65, 91)) + list(range(97, 123)) + [95])
WS = frozenset(map(ord, ' \t\v\f\n\r'))
PUNCT = {'(': 'LPAR', ')': 'RPAR', '~': 'TILDE', '+': 'PLUS', '-': 'MINUS', '*': 'ASTERISK', '/': 'SLASH',
         '%': 'PERCENT', '=': 'EQUAL', '!=': 'BANG_EQUAL', '<': 'LESS', '<=': 'LESS_EQUAL', '>': 'GREATER',
         '>=': 'GREATER_EQUAL', ',': 'COMMA', ';': 'SEMICOL', '.': 'DOT', '..': 'DOTDOT'}
DATEPAT = 'DDDD-DD-DD'
TIMEPAT = 'DD:DD:DD'
KEYWORDS = ('And AND,As AS,Ascending ASC,Bool BOOL,By BY,Cascade CASCADE,Char CHAR,Check CHECK,Create CREATE,'
            'Database DATABASE,Date DATE,Datetime DATETIME,Decimal DECIMAL,Default DEFAULT,Delete DELETE,'
            'Delimiter DELIMITER,Descending DESC,Double DOUBLE,Drop DROP,Dsv DSV,Escape ESCAPE,Exists EXISTS,'
            'False FALSE,Float FLOAT,From FROM,Group GROUP,Has HAS,Having HAVING,Header HEADER,If IF,Import IMPORT,'
            'Index INDEX,Insert INSERT,Int INT,Into INTO,Key KEY,Like LIKE,Limit LIMIT,Not NOT,Null NULL,Offset OFFSET,'
            'On ON,Or OR,Order ORDER,Primary PRIMARY,Quote QUOTE,References REFERENCES,Restrict RESTRICT,Rows ROWS,'
            'Select SELECT,Set SET,Skip SKIP,Table TABLE,True TRUE,Unique UNIQUE,Update UPDATE,Use USE,Using USING,'
            'Values VALUES,Varchar VARCHAR,Where WHERE')


def delta(q, c):
    """Reference automaton: successor of q on character c ('dead' when no token continues)."""
    ch = chr(c) if c >= 0 else None
    if q in ('S', 'comment'):
        if q == 'comment':
            return 'dead' if c == EOF else ('S' if ch == '\n' else 'comment')
        if c == EOF:
            return 'dead'
        if c in WS:
            return 'S'
        if ch in PUNCT:
            return 'p' + ch
        if ch == '!':
            return 'bang'
        if ch == '"':
            return 'str'
        if ch == '\\':
            return 'instr'
        if ch == '0':
            return 'zero'
        if c in DIG:
            return 'dec'
        if ch == 'd':
            return 'd'
        if c in ALPHA:
            return 'id'
        return 'dead'
    if q[0] == 'p' and q[1:] in PUNCT:
        if q == 'p-' and ch == '-':
            return 'comment'
        if q == 'p.' and c in DIG:
            return 'decfrac'
        if ch is not None and q[1:] + ch in PUNCT:
            return q + ch
        return 'dead'
    if q == 'bang':
        return 'p!=' if ch == '=' else 'dead'
    if q in ('id', 'd'):
        if c in ALPHA or c in DIG:
            return 'id'
        return 'date:0' if q == 'd' and ch == "'" else 'dead'
    if q == 'zero':
        if ch in ('x', 'X'):
            return 'hex0'
        q = 'oct'
    if q in ('oct', 'octbad', 'dec'):
        if c in DIG:
            return 'octbad' if q == 'oct' and c not in OCT else q
        return 'decdot' if ch == '.' else 'exp0' if ch in ('e', 'E') else 'dead'
    if q in ('decdot', 'decfrac'):
        return 'decfrac' if c in DIG else 'exp0' if ch in ('e', 'E') else 'dead'
    if q in ('exp0', 'exp1', 'exp'):
        return 'exp' if c in DIG else 'exp1' if q == 'exp0' and ch in ('+', '-') else 'dead'
    if q in ('hex0', 'hex'):
        if c in HEXD:
            return 'hex'
        if ch == '.':
            return 'hexdot' if q == 'hex' else 'hexdot0'
        return 'bexp0' if q == 'hex' and ch in ('p', 'P') else 'dead'
    if q in ('hexdot0', 'hexdot', 'hexfrac'):
        return 'hexfrac' if c in HEXD else 'bexp0' if q != 'hexdot0' and ch in ('p', 'P') else 'dead'
    if q in ('bexp0', 'bexp1', 'bexp'):
        return 'bexp' if c in DIG else 'bexp1' if q == 'bexp0' and ch in ('+', '-') else 'dead'
    if q == 'str':
        return 'dead' if c == EOF else 'strend' if ch == '"' else 'esc' if ch == '\\' else 'str'
    if q == 'esc':
        return 'str' if ch in ('"', '\\', 'n', 't') else 'dead'
    if q == 'instr':
        return 'dead' if c == EOF or ch == ';' else 'instr'
    if q.startswith('date:'):
        i = int(q[5:])
        if q == 'date:0' and ch == '-':
            return 'date:00'
        if q == 'date:00':
            i = 0
        if i < len(DATEPAT):
            return 'date:%d' % (i + 1) if (c in DIG if DATEPAT[i] == 'D' else ch == DATEPAT[i]) else 'dead'
        return 'datend' if ch == "'" else 'time:0' if ch == ' ' else 'dead'
    if q.startswith('time:'):
        i = int(q[5:])
        if i < len(TIMEPAT):
            return 'time:%d' % (i + 1) if (c in DIG if TIMEPAT[i] == 'D' else ch == TIMEPAT[i]) else 'dead'
        return 'timend' if ch == "'" else 'dead'
    return 'dead'


ACC = {'id': 'IDENTIFIER', 'd': 'IDENTIFIER', 'zero': 'OCT_INT', 'oct': 'OCT_INT', 'dec': 'DEC_INT', 'decdot': 'DEC_FLOAT',
       'decfrac': 'DEC_FLOAT', 'exp': 'DEC_FLOAT', 'hex': 'HEX_INT', 'hexdot': 'HEX_FLOAT', 'hexfrac': 'HEX_FLOAT',
       'bexp': 'HEX_FLOAT', 'strend': 'STRING_LITERAL', 'instr': 'INSTRUCTION', 'datend': 'DATE', 'timend': 'DATE_TIME'}
ACC.update({'p' + k: v for k, v in PUNCT.items()})


class Mon(tuple):
    """(q, cur, pending, hist, lex, lag, ahead, diags, eofs)"""
    F = ('q', 'cur', 'pending', 'hist', 'lex', 'lag', 'ahead', 'diags', 'eofs')

    def __new__(cls, *a):
        return tuple.__new__(cls, a)

    def __getattr__(self, n):
        return self[Mon.F.index(n)]

    def w(self, **kw):
        return Mon(*[kw.get(f, v) for f, v in zip(Mon.F, self)])


def remon(m):
    return m if isinstance(m, Mon) else Mon(*m)


@check('L01', 'The scanner accepts exactly the documented tokens')
def run(C):
    P = Program(['src/lex/Lexer.cpp'])
    nxt = P.one('m::ast::Lexer::next')
    tk = {n[3:]: v for n, v in P.enums['m::TokenType'].items() if n.startswith('TK_')}
    names = {v: n for n, v in tk.items()}
    E = Engine(P)
    CLOC = ('root', 'this', 'c_')
    E.ignore = lambda l: 'pos_' in l or 'start_' in l or 'line' in l or 'column' in l
    stats = {'reads': 0, 'pushes': 0}

    def show(st):
        m = remon(st.mon)

        def one(v):
            if isinstance(v, int):
                ds = [v]
            else:
                ds = sorted(st.dom.get(v, ()))
            return 'EOF' if ds == [-1] else repr(chr(ds[0])) if len(ds) == 1 else '%d characters such as %r' % (len(ds), chr(max(ds)) if max(ds) >= 0 else 'EOF')
        return 'reference state %s, lookahead %s' % (m.q, one(m.cur))

    def bad(key, st, node, fr, msg):
        where = fr.fn.loc(node) if fr is not None else nxt.loc()
        C.viol('L01:' + key, '%s (%s)' % (where, fr.fn.q if fr is not None else nxt.q), msg + ' [' + show(st) + ']', st.notes())

    def val(v, st):
        v = E.simplify(v, st)
        while isinstance(v, tuple) and v and v[0] == 'op' and v[1].startswith('wrap'):
            v = v[2]
        return v

    def synced(st, node, fr):
        c, st = E.read(CLOC, None, st)
        m = remon(st.mon)
        if val(c, st) != val(m.cur, st):
            bad('sync:' + fr.fn.q, st, node, fr, 'the current character disagrees with the input stream')
            return None
        return st

    def advance(st, node, fr):
        """The current character is consumed: list of states, split by the reference automaton."""
        m = remon(st.mon)
        cur = val(m.cur, st)
        doms = {cur} if isinstance(cur, int) else st.dom[cur]
        groups = {}
        for c in doms:
            groups.setdefault((delta(m.q, c), c == EOF), set()).add(c)
        out = []
        for (q2, eof), cs in groups.items():
            s = st.copy()
            if not isinstance(cur, int):
                s.dom[cur] = frozenset(cs)
            v = next(iter(cs)) if len(cs) == 1 else cur
            mm = m
            if eof and m.eofs >= 3:
                bad('eofloop:' + fr.fn.q, s, node, fr, 'the scanner keeps reading behind the end of the input')
                continue
            lex, lag, ahead = mm.lex, mm.lag, mm.ahead
            hist = (mm.hist + ((mm.q, cur, lex, lag, ahead),))[-1:]
            if q2 in ('S', 'comment'):
                lex, lag, ahead = (), (), 0
            else:
                lex = 'many' if lex == 'many' or len(lex) >= 3 else lex + (v,)
                if ahead:
                    ahead = 0
                else:
                    lag = 'many' if lag == 'many' or len(lag) >= 4 else lag + (v,)
            s.mon = mm.w(q=q2, hist=hist, lex=lex, lag=lag, ahead=ahead, eofs=mm.eofs + (1 if eof else 0))
            out.append(s)
        return out

    def get(E, e, st, fr):
        stats['reads'] += 1
        st = synced(st, e, fr)
        if st is None:
            return []
        out = []
        for s in advance(st, e, fr):
            m = remon(s.mon)
            if m.pending:
                v = m.pending[0]
                s = s.withmon(m.w(pending=m.pending[1:], cur=v))
            elif m.eofs:
                v = EOF
                s = s.withmon(m.w(cur=EOF))
            else:
                v, s = E.fresh(s, ('ch',), ALL)
                s = s.withmon(remon(s.mon).w(cur=v))
            out.append((v, s))
        return out

    def putback(E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            m = remon(s.mon)
            if val(v, s) != val(m.cur, s):
                bad('putback:' + fr.fn.q, s, e, fr, 'puts back a character other than the current one')
                continue
            if not m.hist:
                raise AnalysisBroken('L01: putback beyond the recorded history')
            q, ch, lex, lag, ahead = m.hist[-1]
            s = s.withmon(m.w(q=q, cur=ch, pending=(m.cur,) + m.pending, hist=m.hist[:-1], lex=lex, lag=lag, ahead=ahead))
            out.append((VOID, s))
        return out

    for c in ('std::basic_istream', 'std::istream'):
        E.models[c + '::get'] = get
        E.models[c + '::putback'] = putback

        def unget(E, e, st, fr):
            st = st.copy()
            return putback(E, {'k': 'call', 'args': [{'k': '__val'}], 'l': e.get('l', 0)}, st, fr)

    def peek(E, e, st, fr):
        # the character after the current one
        m = remon(st.mon)
        if m.pending:
            return [(m.pending[0], st)]
        v, s = E.fresh(st, ('ch',), ALL)
        m = remon(s.mon)
        return [(v, s.withmon(m.w(pending=(v,))))]
    E.models['std::basic_istream::peek'] = peek

    def push_back(E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            v = val(v, s)
            m = remon(s.mon)
            stats['pushes'] += 1
            if isinstance(v, tuple) and v[0] == 'op':
                v = v[2]
            if v == 0 and not (m.lag and m.lag != 'many' and val(m.lag[0], s) == 0):
                out.append((VOID, s.withmon(m.w(ahead=m.ahead if m.ahead else 'end' if False else m.ahead))))
                continue
            if m.lag == 'many':
                bad('text:' + fr.fn.q, s, e, fr, 'the recorded text is not the scanned text')
                continue
            if m.lag:
                if val(m.lag[0], s) != v:
                    bad('text:' + fr.fn.q, s, e, fr, 'the recorded text is not the scanned text')
                    continue
                s = s.withmon(m.w(lag=m.lag[1:]))
            else:
                if m.ahead or val(m.cur, s) != v:
                    bad('text:' + fr.fn.q, s, e, fr, 'the recorded text is not the scanned text')
                    continue
                s = s.withmon(m.w(ahead=1))
            out.append((VOID, s))
        return out
    E.models['std::vector::push_back'] = push_back
    E.models['std::vector::emplace_back'] = push_back

    def clear(E, e, st, fr):
        m = remon(st.mon)
        return [(VOID, st.withmon(m.w(lag=m.lex, ahead=0)))]
    E.models['std::vector::clear'] = clear
    E.models['std::vector::data'] = lambda E, e, st, fr: [(('buf',), st)]

    def pool(E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][-1], st, fr):
            m = remon(s.mon)
            if v == ('buf',):
                v = ('text', 1 if (m.lag == () and not m.ahead) else 0)
            out.append((v, s))
        return out
    E.model_pred.append((lambda q, e: e.get('op') == '()' and q.startswith('m::') and 'Pool' in q, pool))
    E.models['m::ThreadSafeStringPool::operator()'] = pool
    for q in ('m::Pooled', 'm::ThreadSafePooledString', 'm::ThreadSafePooledOptionalString', 'm::PooledString'):
        E.value_classes_exact = E.value_classes_exact | {q}

    def pooled_ctor(E, e, st, fr):
        return E.ev(e['args'][0], st, fr) if e['args'] else [(NULL, st)]
    E.models['ctorval:m::Pooled'] = pooled_ctor

    def diag_e(E, e, st, fr):
        m = remon(st.mon)
        return [(('lref', ('root', 'err')), st.withmon(m.w(diags=1)))]
    E.models['m::Diagnostic::e'] = diag_e
    E.models['m::Diagnostic::err'] = diag_e

    for q in ('std::unordered_map::find',):
        def find(E, e, st, fr):
            out = []
            for k, s in E.ev(e['args'][0], st, fr):
                if isinstance(k, tuple) and k and k[0] == 'lref':
                    k, s = E.read(k[1], None, s)
                if k != ('text', 1):
                    bad('kwtext:' + fr.fn.q, s, e, fr, 'the keyword table is not searched with the text of the token')
                s2 = s.copy()
                out.append((('p', ('kwhit',)), s2))
                out.append((('p', ('kwend',)), s2.copy()))
            return out
        E.models[q] = find
    E.models['std::unordered_map::end'] = lambda E, e, st, fr: [(('p', ('kwend',)), st)]
    E.models['std::unordered_map::cend'] = E.models['std::unordered_map::end']
    E.models['std::unordered_map::contains'] = lambda E, e, st, fr: [(1, s) for _, s in E.models['std::unordered_map::find'](E, e, st, fr)][:1] + [(0, st)]

    def iteq(E, e, st, fr):
        ops = ([e['obj']] if e.get('obj') is not None else []) + e['args']
        out = []
        for a, s in E.ev(ops[0], st, fr):
            for b, s2 in E.ev(ops[1], s, fr):
                r = 1 if a == b else 0
                out.append((r if e['op'] == '==' else 1 - r, s2))
        return out
    E.model_pred.append((lambda q, e: e.get('op') in ('==', '!=') and ('_Node' in q or q.startswith('std::__detail')), iteq))

    def itarrow(E, e, st, fr):
        out = []
        for v, s in E.ev(e['obj'], st, fr):
            if v == ('p', ('kwend',)):
                bad('kwend:' + fr.fn.q, s, e, fr, 'the end iterator of the keyword table is dereferenced')
                continue
            out.append((v if e['op'] == '->' else ('lref', v[1]), s))
        return out
    E.model_pred.append((lambda q, e: e.get('op') in ('->', '*') and '_Node' in q, itarrow))

    def token_ctor(E, e, loc, st, fr):
        if e.get('cm'):
            return None
        out = []
        a = e['args']
        for s in E.ev_list_states(a[:-2], st, fr):
            for txt, s2 in E.ev(a[-2], s, fr):
                if isinstance(txt, tuple) and txt and txt[0] == 'lref':
                    txt, s2 = E.read(txt[1], None, s2)
                for t, s3 in E.ev(a[-1], s2, fr):
                    s3 = s3.copy()
                    s3.mem[loc + ('text',)] = txt
                    s3.mem[loc + ('type',)] = t
                    out.append((None, s3))
        return out

    def tok_ctor(E, e, loc, st, fr):
        if e.get('cm'):
            r = []
            for l, s in E.lv(e['args'][0], st, fr):
                r.append((None, E.copy_obj(l, loc, s)))
            return r
        return token_ctor(E, e, loc, st, fr)
    E.models['ctor:m::ast::Token'] = tok_ctor

    st = State()
    c0 = ('s', ('ch',))
    st.dom[c0] = ALL
    st.mem[CLOC] = c0
    st.mon = Mon('S', c0, (), (), (), (), 0, 0, 0)
    rets, thrown = E.run(nxt, st)
    for t, s in thrown:
        bad('throw', s, t.node, None, 'an exception %s leaves the scanner' % t.typ)

    seen_q = set()
    for v, s in rets:
        if not (isinstance(v, tuple) and v and v[0] in ('obj', 'lref')):
            raise AnalysisBroken('L01: result of the scanner is not a token')
        typ, s = E.read(v[1] + ('type',), None, s)
        txt, s = E.read(v[1] + ('text',), None, s)
        typ = val(typ, s)
        s0 = synced(s, {}, type('F', (), {'fn': nxt})())
        if s0 is None:
            continue
        m = remon(s.mon)
        cur = val(m.cur, s)
        if isinstance(cur, int):
            look = {cur}
        else:
            look = s.dom[cur]
        C.ob()
        seen_q.add(m.q)
        where = None
        viable = [c for c in look if c != EOF and delta(m.q, c) != 'dead']
        acc = ACC.get(m.q)
        if m.q in ('S', 'comment') and set(look) == {EOF}:
            acc, viable = 'EOF', []
        kw = isinstance(typ, tuple) and typ == ('s', ('init', ('kwhit', 'second')))
        tn = names.get(typ, 'keyword' if kw else '?') if not isinstance(typ, tuple) or kw else '?'
        if kw:
            tn = 'keyword'
        desc = 'returns %s' % tn
        if isinstance(typ, tuple) and not kw:
            bad('type:' + m.q, s, {}, None, 'the type of the returned token is not determined by the scanned text (%r)' % (typ,))
            continue
        if tn == 'ERROR':
            if not m.diags:
                bad('nodiag:' + m.q, s, {}, None, 'an error token is returned without an error message')
            elif acc is not None and not viable:
                bad('reject:' + m.q, s, {}, None, 'a valid %s is rejected' % acc)
            elif acc is not None and m.q not in ('S', 'comment'):
                bad('reject2:' + m.q, s, {}, None, 'a valid %s is rejected before its end' % acc)
            elif viable and m.q not in ('S', 'comment', 'dead'):
                bad('early:' + m.q, s, {}, None, 'an error is reported although the text can still become a token')
            if m.q in ('S', 'comment'):
                bad('stuck:' + m.q, s, {}, None, 'an error token is returned without consuming input')
            continue
        if m.diags:
            bad('diag:' + m.q, s, {}, None, 'an error message is issued but %s is returned' % tn)
            continue
        if acc is None:
            bad('accept:' + m.q + ':' + tn, s, {}, None, 'text that is no token is accepted as %s' % tn)
            continue
        if viable:
            bad('munch:' + m.q, s, {}, None, '%s is returned although the token continues' % tn)
            continue
        exp = acc
        if acc == 'IDENTIFIER':
            if tn not in ('IDENTIFIER', 'keyword'):
                bad('type:' + m.q, s, {}, None, 'an identifier is returned as %s' % tn)
                continue
        elif tn != exp:
            bad('type:' + m.q, s, {}, None, 'a %s is returned as %s' % (exp, tn))
            continue
        # text
        if acc == 'EOF':
            continue
        if isinstance(txt, tuple) and txt[0] == 'text':
            if txt[1] != 1:
                bad('text:' + m.q, s, {}, None, 'the text of the token is not the scanned text')
        elif isinstance(txt, tuple) and txt[0] == 'str':
            lx = m.lex if m.lex != 'many' else ()
            cs = [val(x, s) for x in lx]
            if not all(isinstance(x, int) for x in cs) or ''.join(map(chr, cs)) != txt[1]:
                bad('text:' + m.q, s, {}, None, 'the text of the token is %r, not the scanned text' % txt[1])
        else:
            bad('text:' + m.q, s, {}, None, 'the text of the token is not the scanned text (%r)' % (txt,))
    C.use(E)
    missing = [q for q in ACC if q not in seen_q]
    if missing and not C.violations:
        for q in missing:
            C.viol('L01:unreached:' + q, nxt.loc(), 'no path of the scanner recognises %s (reference state %s)' % (ACC[q], q))

    # keywords that both tables name
    ini = P.one('m::ast::Lexer::initialize_keywords')
    E2 = Engine(P)
    got = {}

    def emplace(E, e, st, fr):
        out = []
        for k, s in E.ev(e['args'][0], st, fr):
            if isinstance(k, tuple) and k[0] == 'lref':
                k, s = E.read(k[1], None, s)
            for t, s2 in E.ev(e['args'][1], s, fr):
                got.setdefault(k, []).append((t, fr.fn.loc(e)))
                out.append((VOID, s2))
        return out
    for q in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        E2.models['std::unordered_map::' + q] = emplace
    E2.model_pred.append((lambda q, e: e.get('op') == '()' and q.startswith('m::') and 'Pool' in q, lambda E, e, st, fr: E.ev(e['args'][-1], st, fr)))
    E2.models['m::ThreadSafeStringPool::operator()'] = lambda E, e, st, fr: E.ev(e['args'][-1], st, fr)
    E2.value_classes_exact = E.value_classes_exact
    E2.models['ctorval:m::Pooled'] = pooled_ctor
    E2.run(ini, State())
    C.use(E2)
    want = dict((b, a) for a, b in (x.split() for x in KEYWORDS.split(',')))
    for k, ts in got.items():
        txt = k[1] if isinstance(k, tuple) and k[0] == 'str' else None
        if txt is None:
            raise AnalysisBroken('L01: keyword text is not constant')
        C.ob()
        if txt in want and any(names.get(t) != want[txt] for t, _ in ts):
            C.viol('L01:kw:' + txt, ts[0][1], 'keyword %s is mapped to token %s' % (txt, names.get(ts[0][0])))
    for txt in want:
        if ('str', txt) not in got:
            C.viol('L01:kwmiss:' + txt, ini.loc(), 'the documented keyword %s is not recognised' % txt)
    C.rule('Product of the scanner (interpreted abstractly over sets of characters, all paths, loops to a fixpoint) with the '
           'reference automaton of the documented token grammar: at every return the token type, the longest-match lookahead, '
           'the recorded text and the error message must agree with the reference state; the keyword table must be the '
           'documented one.')
    C.floor('returns of the scanner (path classes)', len(rets), 60)
    C.floor('reference states reached at a return', len(seen_q), len(ACC))
    C.floor('keywords', len(got), len(want))
    C.assumptions += ['std::istream::get/putback/peek deliver the characters of the input in order, end of input is sticky',
                      'the string pool returns the text it is given']
