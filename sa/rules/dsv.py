"""V01: reading delimiter-separated values."""
import itertools
import os

from ..containers import elems, node, seq
from ..engine import Limit, NULL, VOID
from ..ir import AnalysisBroken
from ..registry import check
from . import insert, tables
from ..texts import Texts, pointer
from .catalog import NAMES
from .insert import BASE, Ins, START
from .tables import TYPES

IN = ('root', 'in')
R = ('root', 'reader')
NAME = 'file'
KINDS = {'bool': ('Boolean',), 'char': ('CharacterSequence',), 'date': ('Date',), 'datetime': ('DateTime',), 'int': ('Numeric', 'N_Int', 4, 0), 'dec2': ('Numeric', 'N_Decimal', 6, 2),
         'dec0': ('Numeric', 'N_Decimal', 6, 0), 'float': ('Numeric', 'N_Float', 32, 0), 'double': ('Numeric', 'N_Float', 64, 0)}
for _k in KINDS:
    TYPES[_k] = ('p', ('root', 'ty', _k))


class Dsv(Ins):
    TUS = ('src/io/DSVReader.cpp', 'src/catalog/Type.cpp')

    def __init__(self, c):
        insert_tus = insert.TUS
        insert.TUS = self.TUS
        try:
            super().__init__(c)
        finally:
            insert.TUS = insert_tus
        self.pid = 'V01'
        P, E, M = self.P, self.E, self.E.models
        for q in ('ctor:m::DSVReader', 'm::DSVReader::operator()', 'm::Reader::operator()'):
            M.pop(q)
        E.opaque -= {'m::DSVReader::Config::CSV'}
        E.MAX_DEPTH = 40
        E.WIDEN = None
        E.allow_recursion = lambda fn: True
        for C in ('std::basic_istream', 'std::basic_ios'):
            for n in ('get', 'peek', 'good', 'eof', 'fail', 'bad', 'ignore', 'operator bool', 'operator!', 'unget', 'putback'):
                M['%s::%s' % (C, n)] = lambda E, e, st, fr, n=n: self.stream(e, st, fr, n)
        self.T = Texts(E, lambda k, m, e, fr: self.viol(k, m, e, fr))
        self.T.fallback = self.cstr
        for n in ('strtod', 'std::strtod', 'strtof', 'std::strtof', 'strtold'):
            M[n] = self.strtod
        for n in ('strcmp', 'std::strcmp', 'strncmp', 'std::strncmp', 'm::streq', 'm::strneq'):
            M[n] = lambda E, e, st, fr, n=n.split('::')[-1]: self.strcmp(e, st, fr, n)
        M['__errno_location'] = lambda E, e, st, fr: [(('p', ('root', 'errno')), st)]
        for n in ('__builtin_huge_val', '__builtin_huge_valf', '__builtin_huge_vall'):
            M[n] = lambda E, e, st, fr: [(float('inf'), st)]
        M['std::numeric_limits::max'] = lambda E, e, st, fr: self.limit(e, st, fr, 1)
        M['std::numeric_limits::lowest'] = lambda E, e, st, fr: self.limit(e, st, fr, -1)
        M['m::Interpreter::eval'] = self.eval
        M['std::find_if'] = self.find_if(M.get('std::find_if'))
        for k, kind in (('e', 'err'), ('w', 'err'), ('n', 'note')):
            M['m::Diagnostic::' + k] = lambda E, e, st, fr, kind=kind: self.message(e, st, fr, kind)
        M['ctor:m::Tuple'] = self.newtuple
        M['m::Tuple::operator='] = lambda E, e, st, fr: [(('lref', d), E.copy_obj(l, d, s2)) for l, s in E.lv(e['args'][0], st, fr) for d, s2 in E.obj_loc(e, s, fr)]
        self.text = ''

    def newtuple(self, E, e, loc, st, fr):
        a = e['args']
        if not a:
            return [(VOID, E.kill_prefix(loc, st).set(loc + ('__n',), 0).set(loc + ('__alive',), 1))]
        if (fr.fn.ty(a[0]) or {}).get('rec') == 'm::Tuple':
            return [(VOID, E.copy_obj(l, loc, s)) for l, s in E.lv(a[0], st, fr)]
        return self.tuple(E, e, loc, st, fr)

    # -- characters
    def stream(self, e, st, fr, n):
        E = self.E
        out = []
        for l, s in E.obj_loc(e, st, fr):
            if l != IN:
                raise AnalysisBroken('%s: another stream' % fr.fn.loc(e))
            at = s.mem[IN + ('__at',)]
            eof = s.mem[IN + ('__eof',)]
            fail = s.mem[IN + ('__fail',)]
            vals = [((), s)]
            for a in e['args']:
                vals = [(p + (v,), s3) for p, s2 in vals for v, s3 in self.K.val(a, s2, fr)]
            for a, s in vals:
                if n in ('get', 'peek'):
                    if a:
                        raise AnalysisBroken('%s: get() into an object' % fr.fn.loc(e))
                    if eof or fail or at >= len(self.text):
                        out.append((-1, s.set(IN + ('__eof',), 1).set(IN + ('__fail',), 1 if n == 'get' or eof else fail)))
                    else:
                        out.append((ord(self.text[at]), s.set(IN + ('__at',), at + (n == 'get'))))
                elif n == 'ignore':
                    k = a[0] if a else 1
                    d = a[1] & 255 if len(a) > 1 and a[1] != -1 else None
                    while k and not eof and not fail:
                        if at >= len(self.text):
                            eof = 1
                            break
                        at += 1
                        k -= 1
                        if d is not None and ord(self.text[at - 1]) == d:
                            break
                    out.append((('lref', IN), s.set(IN + ('__at',), at).set(IN + ('__eof',), eof)))
                elif n in ('unget', 'putback'):
                    raise AnalysisBroken('%s: characters are put back' % fr.fn.loc(e))
                else:
                    out.append((int({'good': not eof and not fail, 'eof': bool(eof), 'fail': bool(fail), 'bad': False, 'operator bool': not fail, 'operator!': bool(fail)}[n]), s))
        return out

    def cstr(self, v, s, e, fr):
        """The text a pointer to characters refers to."""
        if isinstance(v, tuple) and v[:1] in (('str',), ('strlit',), ('lit',)):
            return v[1]
        if isinstance(v, tuple) and v[:1] == ('s',) and isinstance(v[1], tuple) and v[1][0] == 'text':
            return self.cstr(v[1][1], s, e, fr)
        if isinstance(v, tuple) and v[:1] == ('p',):
            l = v[1]
            x = s.mem.get(l)
            if isinstance(x, tuple):
                return self.cstr(x, s, e, fr)
            k = l[-1]
            if isinstance(k, tuple) and k[0] == 'i':
                if l[:2] == ('root', 'cstr'):
                    return l[2][k[1]:]
                if seq(s, l[:-2] if False else l[:-1]) is not None:
                    cs = [s.mem.get(x) for x in elems(s, l[:-1])][k[1]:]
                else:
                    cs = None
            elif isinstance(k, tuple) and k[0] == 'n':
                ids = seq(s, l[:-1])
                if ids is None or k[1] not in ids:
                    self.viol('text', 'reads a text outside of its buffer', e, fr)
                    return ''
                cs = [s.mem.get(node(l[:-1], i)) for i in ids[ids.index(k[1]):]]
            else:
                cs = None
            if cs is not None:
                if not all(isinstance(x, int) for x in cs):
                    raise AnalysisBroken('%s: unknown characters' % fr.fn.loc(e))
                if 0 not in cs:
                    self.viol('terminator', 'takes characters without a terminator for a text', e, fr)
                    cs = cs + [0]
                return ''.join(chr(x & 255) for x in cs[:cs.index(0)])
        raise AnalysisBroken('%s: unknown text %s' % (fr.fn.loc(e), str(v)[:80]))

    def pool(self, E, e, st, fr):
        return [(('str', self.cstr(v, s, e, fr)), s) for v, s in self.K.val(e['args'][0], st, fr)]

    def strcmp(self, e, st, fr, n):
        out = []
        for x, s in self.K.val(e['args'][0], st, fr):
            for y, s2 in self.K.val(e['args'][1], s, fr):
                a, b = self.cstr(x, s2, e, fr), self.cstr(y, s2, e, fr)
                if len(e['args']) > 2:
                    for k, s2 in self.K.val(e['args'][2], s2, fr):
                        a, b = a[:k], b[:k]
                out.append(((int(a == b) if n in ('streq', 'strneq') else (a > b) - (a < b)), s2))
        return out

    def strtod(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            t = self.cstr(v, s, e, fr)
            num, k = parse_double(t)
            for d, s2 in self.K.val(e['args'][1], s, fr):
                if num in (float('inf'), float('-inf')):
                    s2 = s2.set(('root', 'errno'), 34)
                if d != NULL:
                    if not (isinstance(d, tuple) and d[:1] == ('p',)):
                        raise AnalysisBroken('%s: unknown end pointer' % fr.fn.loc(e))
                    p, s2 = pointer(t, k, s2)
                    s2 = s2.set(d[1], p)
                out.append((num, s2))
        return out

    def limit(self, e, st, fr, sign):
        t = fr.fn.ty(e) or {}
        if t.get('bt') in ('float', 'double'):
            return [(sign * (1.7976931348623157e308 if t.get('w', 64) == 64 else 3.4028234663852886e38), st)]
        return None if sign < 0 else [((1 << (t.get('w', 64) - (1 if t.get('sg', 1) else 0))) - 1, st)]

    # -- values
    def value(self, E, e, st, fr):
        out = []
        a = e['args']
        t = (fr.fn.ty(a[0]) or {}) if a else {}
        for v, s in (self.K.val(a[0], st, fr) if a else [(0, st)]):
            if isinstance(v, tuple) and v[:1] == ('obj',):
                v = s.mem.get(v[1], v)
            if isinstance(v, tuple) and v[:1] == ('value',):
                out.append((v, s))
                continue
            k = 's' if t.get('rec') == 'm::Pooled' else 'b' if t.get('bt') == 'bool' else ('f' if t.get('w') == 32 else 'd') if t.get('bt') == 'float' else 'd' if t.get('bt') == 'double' else 'p' if t.get('ptr') else 'i'
            out.append((('value', k, v), s))
        return out

    def eval(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['args'][0], st, fr):
            text, ty = s.mem.get(l + ('tok', 'text')), s.mem.get(l + ('tok', 'type'))
            if not isinstance(text, tuple):
                raise AnalysisBroken('%s: unknown constant' % fr.fn.loc(e))
            out.append((('value', 'i', ('const', ty, text[1])), s))
        return out

    def message(self, e, st, fr, kind):
        E = self.E
        out = []
        for l, s in E.lv(e['args'][0], st, fr):
            out.append((('lref', ('root', 'diag', kind)), self.event(s, (kind, s.mem.get(l + ('line',))))))
        return out

    def find_if(self, prev):
        def h(E, e, st, fr):
            r = prev(E, e, st, fr) if prev else None
            if r is not None:
                return r
            raise AnalysisBroken('%s: find_if' % fr.fn.loc(e))
        return h


def parse_double(t):
    import re
    m = re.match(r'[ \t\n\v\f\r]*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)', t)
    if not m:
        if re.match(r'[ \t\n\v\f\r]*[+-]?(inf|nan|0x)', t, re.I):
            raise AnalysisBroken('special floating-point numbers are not enumerated')
        return 0.0, 0
    return float(m.group(0)), m.end()


# ------------------------------------------------------------------------------------------------- reference
class Excluded(Exception):
    """The text is malformed in a way whose treatment is not specified."""


DEFAULT = (',', '"', '\\')
CSV = (',', '"', '"')
DATE = 'DDDD-DD-DD'


class Ref:
    """The documented meaning of a text: rows and lines on which something has to be reported."""

    def __init__(self, text, fmt, kinds, cols=None, header=False, skip=False, limit=None):
        self.t, (self.d, self.q, self.e), self.i = text, fmt, 0
        self.rows, self.bad, self.good = [], [], []
        names = list(kinds)
        if header and not skip:
            end = self.line_end()
            cols = [n if n in kinds else None for n in text[:end].split(self.d)] if end else []
            self.i = end + 1
        else:
            cols = names
            if skip:
                self.i = self.line_end() + 1
        while self.i < len(text) and (limit is None or len(self.rows) < limit):
            start = self.i
            row, msg, ok = dict.fromkeys(names), False, True
            for k, n in enumerate(cols):
                if k:
                    if self.at() != self.d:
                        ok = False
                        break
                    self.i += 1
                if n is None:
                    self.skip()
                elif self.at() == self.d and k < len(cols) - 1 or self.at() in ('\n', '') and k == len(cols) - 1:
                    row[n] = None
                else:
                    row[n], m = self.cell(kinds[n])
                    msg |= m
            if ok and self.at() not in ('\n', ''):
                ok = False
            if not ok:
                self.i = self.line_end()
            else:
                self.rows.append(tuple(row[n] for n in names))
            a, b = text.count('\n', 0, start) + 1, text.count('\n', 0, min(self.i, len(text))) + 1
            (self.bad if msg or not ok else self.good).append((a, b))
            self.i += 1

    def at(self):
        return self.t[self.i:self.i + 1]

    def line_end(self):
        j = self.t.find('\n', self.i)
        return len(self.t) if j < 0 else j

    def rest(self):
        """The remainder of an unquoted cell."""
        j = self.i
        while self.at() not in ('', '\n', self.d):
            self.i += 1
        return self.t[j:self.i]

    def quoted(self):
        self.i += 1
        out = ''
        while self.at():
            c = self.at()
            if c == self.q:
                self.i += 1
                if self.e == self.q and self.at() == self.q:
                    out += c
                else:
                    break
            elif c == self.e:
                self.i += 1
                out += self.at()
            else:
                out += c
            self.i += 1
        return out

    def skip(self):
        if self.at() == self.q:
            self.quoted()
        self.trailer()

    def trailer(self):
        if self.at() == self.q:
            raise Excluded
        self.rest()

    def cell(self, kind):
        """(value, whether something has to be reported)"""
        if kind == 'char':
            if self.at() == self.q:
                v = self.quoted()
                self.trailer()
                return ('s', v), False
            v = self.rest()
            return (None, True) if self.q in v else (('s', v), False)
        if kind in ('date', 'datetime'):
            j = self.i
            quote = self.at() == self.q
            i = j + quote
            neg = self.t[i:i + 1] == '-'
            i += neg
            pat = DATE if kind == 'date' else DATE + ' DD:DD:DD'
            n = 0
            while n < len(pat) and i + n < len(self.t) and (self.t[i + n] in '0123456789' if pat[n] == 'D' else self.t[i + n] == pat[n]):
                n += 1
            ok = n == len(pat)
            v = ('t', kind, "d'%s%s'" % ('-' * neg, self.t[i:i + n]))
            i += n
            if ok and quote:
                ok = self.t[i:i + 1] == self.q
                i += ok
            self.i = i
            if self.at() == self.q or self.q in self.t[i:self.line_end()]:
                raise Excluded
            self.rest()
            return (v, False) if ok else (None, True)
        t = self.rest()
        if kind == 'bool':
            return (('b', t == 'TRUE'), False) if t in ('TRUE', 'FALSE') else (None, True)
        if kind in ('float', 'double'):
            if t.strip() != t or t[:1] == '+':
                raise Excluded
            v, n = parse_double(t)
            if n != len(t) or not n:
                return None, True
            big = abs(v) == float('inf')
            if big:
                if kind == 'float':
                    raise Excluded
                v = 1.7976931348623157e308 * (1 if v > 0 else -1)
            return (kind[0], v), big
        import re
        m = re.fullmatch(r'([+-]?)(\d*)(\.(\d*))?' if kind != 'int' else r'([+-]?)(\d+)', t)
        if not m or kind != 'int' and not m.group(2) and not m.group(4):
            return None, True
        if kind == 'int':
            return ('i', int(t)), False
        scale = KINDS[kind][3]
        v = int(m.group(2) or 0) * 10 ** scale + int(((m.group(4) or '') + '0' * scale)[:scale] or 0)
        return ('i', -v if m.group(1) == '-' else v), False


# ------------------------------------------------------------------------------------------------- the check
class Run:
    def __init__(self, c):
        self.W = W = Dsv(c)
        P = W.P
        self.n = self.chars = self.skipped = 0
        fs = [f for q in ('m::DSVReader::operator()',) for f in P.by_q[q] if len(f.params) == 2]
        cs = [f for f in P.funcs.values() if f.cls == 'm::DSVReader' and f.kind == 'ctor' and len(f.params) == 4 and f.body is not None]
        if len(fs) != 1 or len(cs) != 1:
            raise AnalysisBroken('anchor vanished: m::DSVReader')
        self.read, self.ctor = fs[0], cs[0]
        self.tk = P.enums['m::TokenType']
        kinds = next(P.enums[q] for q in P.enums if 'N_Decimal' in P.enums[q])
        self.nk = {k.split('::')[-1]: v for k, v in kinds.items()}
        self.cache = {}

    def start(self, attrs, deco, fmt, header, skip, limit, tx):
        W = self.W
        st = W.world({'t': (attrs, deco)}, [])
        for k, T in KINDS.items():
            L = TYPES[k][1]
            st = st.set(L + ('__cls',), ('str', 'm::' + T[0])).set(L + ('__alive',), 1)
            if T[0] == 'Numeric':
                st = st.set(L + ('kind',), self.nk[T[1]]).set(L + ('precision',), T[2]).set(L + ('scale',), T[3])
        C = ('root', 'cfg')
        st = st.set(C + ('__alive',), 1).set(R + ('__cls',), ('str', 'm::DSVReader')).set(R + ('__alive',), 1)
        for n, v in zip(('delimiter', 'quote', 'escape'), fmt):
            st = st.set(C + (n,), ord(v))
        st = st.set(C + ('has_header',), int(header)).set(C + ('skip_header',), int(skip)).set(C + ('num_rows',), (1 << 64) - 1 if limit is None else limit)
        W.op = 'm::DSVReader::DSVReader'
        rets, thrown = W.run(self.ctor, st, R, [('ref', ('root', 'tab', 't')), ('ref', C), ('ref', ('root', 'diag')), ('val', ('p', ('root', 'tx')) if tx else NULL)])
        return rets, thrown

    def go(self, text, attrs, fmt=DEFAULT, header=False, skip=False, limit=None, tx=False, deco=False, note=''):
        W = self.W
        vis = [a for a in attrs if not a[2]]
        try:
            ref = Ref(text, fmt, {a[0]: a[1] for a in vis}, header=header, skip=skip, limit=limit)
        except Excluded:
            self.skipped += 1
            return
        self.n += 1
        self.chars += len(text)
        key = (tuple(attrs), deco, fmt, header, skip, limit, tx)
        conf = '%s%s%s%s' % (' '.join(fmt), ', header' if header else '', ', header skipped' if skip else '', '' if limit is None else ', %d rows' % limit)
        if key not in self.cache:
            W.show = 'format %s' % conf
            rets, thrown = self.start(*((attrs, deco) + key[2:]))
            if len(rets) != 1 or thrown:
                W.viol('ctor', 'cannot be constructed')
                self.cache[key] = None
            else:
                self.cache[key] = rets[0][1]
        st = self.cache[key]
        if st is None:
            return
        W.op = 'm::DSVReader::operator()'
        W.show = 'table (%s), format %s, text %s' % (', '.join('%s %s%s' % (a[0], a[1], ' hidden' if a[2] else '') for a in attrs), conf, repr(text if len(text) < 90 else text[:80] + '…')[1:-1])
        W.text = text
        st = st.set(IN + ('__at',), 0).set(IN + ('__eof',), 0).set(IN + ('__fail',), 0).set(IN + ('__alive',), 1).withmon(())
        try:
            rets, thrown = W.run(self.read, st, R, [('ref', IN), ('val', ('str', NAME))])
        except Limit as ex:
            if 'loop states' not in str(ex):
                raise
            W.viol('endless', 'does not come to an end')
            return
        for t, s in thrown:
            W.viol('throws', 'lets an exception escape')
        if not rets:
            W.viol('none', 'has no normal outcome')
        for v, s in rets:
            self.judge(ref, attrs, tx, s)

    def judge(self, ref, attrs, tx, s):
        W = self.W
        got, have, msgs = [], BASE, []
        for ev in s.mon:
            if ev[0] == 'rows':
                have = ev[2]
            elif ev[0] == 'write':
                if ev[2] != BASE + len(got):
                    W.viol('position', 'writes the %d. row at the wrong position' % (len(got) + 1))
                if ev[2] != have - 1:
                    W.viol('room', 'writes a row that is not the last one of the store')
                got.append(ev[3])
            elif ev[0] == 'err':
                msgs.append(ev[1])
        want = []
        for r in ref.rows:
            r = list(r)
            w = []
            for n, k, hid, *_ in attrs:
                if hid:
                    w.append(None if not tx or n not in ('$ts_begin', '$ts_end') else ('i', START if n == '$ts_begin' else -1))
                else:
                    x = r.pop(0)
                    if x is not None and x[0] == 't':
                        x = ('i', ('const', self.tk['TK_DATE' if x[1] == 'date' else 'TK_DATE_TIME'], x[2]))
                    w.append(x)
            want.append(tuple(w))
        if have != BASE + len(want):
            W.viol('count', 'adds %d rows instead of %d' % (have - BASE, len(want)))
        if len(got) != len(want):
            W.viol('written', 'writes %d rows instead of %d' % (len(got), len(want)))
        else:
            for i, (g, w) in enumerate(zip(got, want)):
                g = tuple(self.norm(x) for x in g)
                for a, x, y in zip(attrs, g, w):
                    if x != y or type(x) != type(y):
                        if x and y and x[0] == y[0] == 'f' and abs(x[1] - y[1]) <= 1e-6 * abs(y[1]):
                            continue
                        W.viol('cell:' + a[1], 'row %d, attribute %s: stores %s instead of %s' % (i + 1, a[0], self.show(x), self.show(y)))
        for a, b in ref.bad:
            if not any(isinstance(m, int) and a <= m <= b for m in msgs):
                W.viol('silent', 'reports nothing for the malformed row in line %d' % a)
        for m in msgs:
            if not any(a <= m <= b for a, b in ref.bad):
                W.viol('message', 'reports a problem in line %s, which is well-formed' % m)

    @staticmethod
    def norm(x):
        if x == 'NULL':
            return None
        if isinstance(x, tuple) and x[0] == 'value':
            v = x[2]
            if x[1] == 'b':
                return ('b', bool(v))
            if x[1] == 's':
                return ('s', v[1] if isinstance(v, tuple) and v[:1] == ('str',) else v)
            return (x[1], v)
        return ('?', x)

    @staticmethod
    def show(x):
        return 'NULL' if x is None else '%s (%s)' % (str(x[1])[:60], {'b': 'truth value', 's': 'string', 'i': 'integer', 'f': 'float', 'd': 'double'}.get(x[0], x[0]))


def words(alpha, n):
    return [''.join(w) for k in range(1, n + 1) for w in itertools.product(alpha, repeat=k)]


def variants(word, repl):
    """The word with one character replaced, dropped or inserted."""
    out = [word]
    for i in range(len(word) + 1):
        out += [word[:i] + r + word[i:] for r in repl]
        if i < len(word):
            out.append(word[:i] + word[i + 1:])
            out += [word[:i] + r + word[i + 1:] for r in repl if r != word[i]]
    return list(dict.fromkeys(out))


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def usable(cell, kind, fmt):
    try:
        Ref(cell + '\n', fmt, {'a': kind})
    except Excluded:
        return False
    return True


@check('V01', 'Delimiter-separated values are read as the rows they stand for')
def v01(c):
    full = os.environ.get('VERIF_TIER') == 'thorough'
    D = Run(c)
    W = D.W
    V = lambda n, k: (n, k, 0, 0)
    H = lambda n: (n, 'i8', 1, 0)
    # cells
    dates = ['2020-01-02', '-0044-03-15', '"1999-12-31"', '"-0001-01-01"', '2020-01-02 rest', '"1999-12-31', '19999-12-31', '', '-', '"', '--0044-03-15', '12345678901']
    times = ['2020-01-02 03:04:05', '-0044-03-15 23:59:59', '"1999-12-31 00:00:00"', '2020-01-02 03:04:05.678', '2020-01-02T03:04:05', '"1999-12-31 00:00:00', '2020-01-02']
    cells = {
        'bool': ['TRUE', 'FALSE', 'TRUE', 'true', 'T', 'TRUEx', 'FALS', 'TRUE ', ' TRUE', '0', '1', '"TRUE"', 'FALSE', 'x', 'TRUE'],
        'int': words('+-07.a ', 3 if full else 2) + ['123456789', '-123456789', '+987', '0x1f', '1e3', '1,', '12 ', '9223372036854775807', '-9223372036854775807', '007', '-0', '"12"', '1-2', '1+', '--1', '+-1', '-+1', '12a3'],
        'dec2': words('+-1.x', 4 if full else 3) + ['12.345', '-12.345', '-0.05', '0.5', '-0.5', '1.005', '1.999', '00.50', '-.5', '5.', '-5.', '+1.25', '1.2.3', '1234.5678', '-1.0', '0.0', '-0.0', '12.3x', '12.345x', '12..3', '1.-5'],
        'dec0': words('-1.', 3) + ['12.7', '-12.7', '3.x'],
        'double': words('-1.e', 4 if full else 3) + ['1.5', '-2.25', '1e10', '1e-3', '-1.5E2', '.5', '5.', '1e400', '-1e400', '1.5x', 'x', '--1', '123456.789', '0', '-0.5'],
        'float': ['1.5', '-2.25', '0.1', '1e10', '3.14159', '.5', 'x', '1.x', '-', '1e', '16777217'],
        'date': dates[:7] + dates[8:] + variants('2020-01-02', '-x'),
        'datetime': times + variants('2020-01-02 03:04:05', ':x' if full else 'x'),
        'char': ['a', 'ab c', ' a ', 'a\tb', 'x\\y', "it's", '""', '"a"', '"a,b"', '"a\nb"', '"a\\"b"', '"a""b"', 'a"b', 'ab"', '\xe4\xf6', '"\xe4,"', '"a"b', '"\\\\"', '\\', '"\\n"', '"a"",""b"', 'NULL', '0']
                + words('a"\\', 3) + ['"%s"' % w for w in words('a"\\,\n', 3 if full else 2)],
    }
    for kind, ws in cells.items():
        for fmt in (DEFAULT, CSV) if kind in ('char', 'date') else (DEFAULT,):
            ok = [w for w in ws if w and usable(w, kind, fmt)]
            lone = [w for w in ok if w[0] == '"' and not closed(w, fmt)]
            ok = [w for w in ok if w not in lone and '\n' not in w or w not in lone]
            for part in chunks(ok, 12):
                D.go(''.join(w + '\n' for w in part), [V('a', kind)], fmt)
                D.go('\n'.join(w + ',7' for w in part), [V('a', kind), V('b', 'int')], fmt)
                D.go('\n'.join('7,' + w for w in part if ',' not in w or w[0] == '"'), [V('a', 'int'), V('b', kind)], fmt)
            for w in lone:
                D.go('1,%s\n2,b\n' % w, [V('a', 'int'), V('b', kind)], fmt)
                D.go('%s' % w, [V('a', kind)], fmt)
            for w in ok[:3] + ok[-3:]:
                D.go(w, [V('a', kind)], fmt)
                D.go('%s\n\n%s\n\n' % (w, ok[0]), [V('a', kind)], fmt)
                D.go(',%s\n%s,\n,\n%s,%s' % (w, w, w, w), [V('a', kind), V('b', kind)], fmt)
    # NULLs and values of the previous row
    for kind in KINDS:
        w = cells[kind][0] if kind not in ('int', 'dec2', 'dec0', 'double') else '7'
        D.go('%s,1\nx"y,2\n%s,3\n,4\n%s,5\n,\n' % (w, w, w), [V('a', kind), V('b', 'int')])
    # rows and headers
    AB = [V('a', 'int'), V('b', 'char'), V('c', 'int')]
    rows = ['1,x,2\n', '3,y,4\n', '5,z\n', '6\n', '7,u,8,9\n', '\n', ',,\n', ',\n', ',,,\n', '8,"v\nw",9\n', '8,"v"x,9\n', 'x,y,z\n', '1,x,\n', '"1",x,2\n', ',"a,b",\n']
    for k in (1, 2) + ((3,) if full else ()):
        for rs in itertools.product(rows, repeat=k):
            if k == 1 or rs[0] != rs[1] and (full or rows.index(rs[0]) < rows.index(rs[1]) or rs[1] == rows[0]):
                D.go(''.join(rs), AB)
                if k == 1:
                    D.go(rs[0][:-1], AB)
                    D.go(rs[0] + rows[0], AB, CSV)
                    D.go(rows[0] + rs[0][:-1], AB, CSV)
    for limit in (0, 1, 2, 3):
        for text in ('', '1,x,2\n', '1,x,2\n3,y,4\n5,z,6\n7,u,8\n', '1,x\n3,y,4\n5\n5,z,6\n7,u,8,9\n9,v,0', '1,x,2\n3,y,4\n9,z\n'):
            D.go(text, AB, limit=limit)
            D.go('h\n' + text, AB, limit=limit, skip=True, header=True)
    for header, cells in (('a,b,c', '1,x,2'), ('c,a,b', '1,2,x'), ('b', 'x'), ('a', '1'), ('c,b', '1,x'), ('a,zz,b', '1,y,x'), ('zz,b', 'y,x'), ('b,zz', 'x,y'), ('zz', 'y'), ('a,zz,b', '1,"y,y",x'),
                          ('a,zz,b', '1,"y""y",x'), ('a,zz,b', '1,"y\ny",x'), ('a,zz,b', '1,,x'), ('zz,a', ',1'), ('a,zz', '1,'), ('A,b', '1,x'), ('a,zz,yy,c', '1,,y,2'), ('a,zz,b', '1,"y"y,x'),
                          ('a,zz,b', '1,y"y,x'), ('a,zz', '1,"y\\"y"'), ('zz,yy', 'u,v')):
        for tail in ('\n', ''):
            for fmt in (DEFAULT, CSV):
                D.go('%s\n%s\n%s%s' % (header, cells, cells, tail), AB, fmt, header=True)
    for text in ('', 'a,b,c', 'a,b,c\n', 'a,b,c\n\n', 'a,b,c\n1,x,2\n3\n4,y,5\n', '\n', 'b,a\nx,1,2\ny,2\n,\n'):
        D.go(text, AB, header=True)
        D.go(text, AB, header=True, skip=True)
        D.go(text, AB, skip=True)
        D.go(text, [V('a', 'int')])
    D.go('\n1,x,2\n', AB, skip=True)
    D.go('"h\n1,x,2\n', AB, skip=True, header=True)
    for fmt in (('|', "'", '\\'), (';', '"', '"'), ('\t', "'", "'"), (' ', '"', '/'), (',', "'", '"')):
        d, q, e = fmt
        D.go('1%sx,;|%s2\n' % (d, d) if d not in ',;|' else '1%sx%s2\n' % (d, d), AB, fmt)
        D.go(('a{d}zz{d}c\n1{d}{q}u{d}v{q}{d}2\n3{d}{q}{e}{q}{q}{d}4\n').format(d=d, q=q, e=e), AB, fmt, header=True)
        D.go(('a{d}zz{d}b\n1{d}{q}u{e}{q}{d}v{q}{d}2\n3{d}{q}{e}{q}\n{q}{d}4\n5{d}{q}u{q}{d}6\n').format(d=d, q=q, e=e), AB, fmt, header=True)
        D.go(('1{d}{q}u{d}v{q}{d}2\n3{d}{q}{e}{q}{q}{d}4\n5{d}x{q}{d}6\n{d}{d}\n').format(d=d, q=q, e=e), AB, fmt)
    # hidden attributes
    TS = [H('$ts_begin'), H('$ts_end')]
    for attrs, deco in ((TS + [V('a', 'int'), V('b', 'char')], True), ([V('a', 'int'), H('h'), V('b', 'char')], False), ([H('h'), V('a', 'int'), V('b', 'char')], False),
                        (TS + [V('a', 'int'), H('h'), V('b', 'char')], True), ([V('a', 'int'), V('b', 'char'), H('h')], False)):
        for tx in (False, True):
            D.go('1,x\n2\n3,y\n', attrs, tx=tx, deco=deco)
            D.go('b,a\nx,1\n2\n,3', attrs, tx=tx, deco=deco, header=True)
            D.go('b\nx\n\n', attrs, tx=tx, deco=deco, header=True)
    # the configuration
    W.op, W.show = 'm::DSVReader::DSVReader', 'delimiter and quote are the same character'
    for ch in ',"':
        rets, thrown = D.start(AB, False, (ch, ch, '\\'), False, False, None, False)
        if rets or len(thrown) != 1 or thrown[0][0].typ != 'm::invalid_argument':
            W.viol('same', 'does not throw m::invalid_argument')
    c.use(W.E)
    c.ob(D.n)
    c.stat('texts', D.n)
    c.stat('characters', D.chars)
    c.stat('unspecified texts left out', D.skipped)
    c.floor('texts', D.n, 500)
    c.rule('The reader is interpreted on enumerated texts (cells of every type over the characters the code can distinguish, rows, headers, formats, limits, hidden attributes); the rows that reach the store '
           '(position, attribute, value, NULL), the number of rows of the store and the lines for which something is reported must be those of the documented format.')


def closed(w, fmt):
    r = Ref.__new__(Ref)
    r.t, (r.d, r.q, r.e), r.i = w + '\0', fmt, 0
    r.quoted()
    return r.at() == '\0'
