"""Y01: escape sequences and LIKE patterns."""
import itertools
import os
import re

from .. import concrete
from ..engine import Limit, NULL, VOID, State
from ..ir import AnalysisBroken, walk
from ..registry import check
from ..streams import Streams
from ..texts import Texts
from .catalog import World

TU = 'src/util/fn.cpp'


class Txt(World):
    def __init__(self, c):
        super().__init__(c, 'Y01', [TU])
        E, M = self.E, self.E.models
        E.MAX_DEPTH = 30
        E.WIDEN = None
        E.MAX_ELEMS = 4096
        concrete.install(E)
        Streams(self)
        self.T = Texts(E, lambda k, m, e, fr: self.viol(k, m, e, fr))
        M['ctorval:std::basic_regex'] = self.regex
        E.value_classes_exact = set(E.value_classes_exact) | {'std::basic_regex'}
        for o, f in (('|', lambda a, b: a | b), ('&', lambda a, b: a & b), ('^', lambda a, b: a ^ b)):
            M['std::regex_constants::operator' + o] = self.flags(f)
        M['std::_Bit_reference::operator bool'] = lambda E, e, st, fr: [E.read(l, None, s) for l, s in E.lv(e['obj'], st, fr)]
        M['std::_Bit_reference::operator='] = self.setbit
        E.lv_hook = self.bounds

    def flags(self, f):
        def h(E, e, st, fr):
            vs = self.T.vals(e['args'], st, fr)
            return [(f(*v), s) for v, s in vs] if all(isinstance(x, int) for v, _ in vs for x in v) else None
        return h

    def setbit(self, E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            if isinstance(v, tuple) and v[:1] in (('lref',), ('obj',)):
                v, s = E.read(v[1], None, s)
            out += [(('lref', l), s2.set(l, v)) for l, s2 in E.lv(e['obj'], s, fr)]
        return out

    def bounds(self, e, l, st, fr):
        if l[:2] == ('root', 'cstr') and len(l) > 3 and not 0 <= l[3][1] <= len(l[2]):
            self.viol('bounds', 'reads a text outside of its characters', e, fr)

    def regex(self, E, e, st, fr):
        args = [a for a in e['args'] if a['k'] != 'dfltarg']
        if args and (fr.fn.ty(args[0]) or {}).get('rec') == 'std::basic_regex':
            return self.T.vals(args[:1], st, fr, True)
        out = []
        for v, s in self.T.vals(args, st, fr):
            flags = 0
            for x in v[1:]:
                if not isinstance(x, int) or x & ~31:
                    raise AnalysisBroken('%s: flags of a regular expression' % fr.fn.loc(e))
                flags |= x
            out.append((('regex', self.T.text(v[0], s, e, fr), bool(flags & 1)), s))
        return out

    def call(self, fn, *args):
        """(('value', text or int or regex) | ('throws', class))"""
        st = State().withmon(())
        av = []
        for i, a in enumerate(args):
            if isinstance(a, tuple):                    # a string by reference
                st = st.set(('root', 'arg', i), ('str', a[0]))
                av.append(('ref', ('root', 'arg', i)))
            elif isinstance(a, str):                    # a pointer to characters
                from ..texts import pointer
                p, st = pointer(a, 0, st)
                av.append(('val', p))
            else:
                av.append(('val', a))
        try:
            rets, thrown = self.run(fn, st, None, av)
        except Limit as ex:
            if 'loop states' not in str(ex):
                raise
            rets = thrown = ()
        outs = []
        for v, s in rets:
            if isinstance(v, tuple) and v[:1] in (('obj',), ('lref',)):
                v = s.mem.get(v[1])
            if isinstance(v, tuple) and v[:1] == ('str',):
                v = v[1]
            elif isinstance(v, tuple) and v[:1] == ('regex',):
                v = v[1:]
            outs.append(('value', v))
        outs += [('throws', t.typ) for t, s in thrown]
        if not outs:
            self.viol('endless', 'does not come to an end')
            return ('endless', None)
        if len(outs) != 1:
            raise AnalysisBroken('%s: %d outcomes of %s' % (fn.loc(), len(outs), fn.q))
        return outs[0]


# ------------------------------------------------------------------------------------------------- references
def like_tokens(p, esc):
    out, i = [], 0
    while i < len(p):
        if p[i] == esc:
            i += 1
            if i >= len(p) or p[i] not in ('_', '%', esc):
                return None
            out.append(('c', p[i]))
        else:
            out.append(('any',) if p[i] == '%' else ('one',) if p[i] == '_' else ('c', p[i]))
        i += 1
    return out


def like(toks, s):
    ends = {0}
    for t in toks:
        if t[0] == 'any':
            ends = set(range(min(ends), len(s) + 1)) if ends else ends
        else:
            ends = {i + 1 for i in ends if i < len(s) and (t[0] == 'one' or s[i] == t[1])}
    return len(s) in ends


def ecma(src):
    """An ECMAScript expression (as std::regex reads it) as one of Python; None if it is malformed."""
    out, i = '', 0
    while i < len(src):
        c = src[i]
        i += 1
        if c == '\\':
            if i >= len(src):
                return None
            d = src[i]
            i += 1
            out += '\\' + d if d in 'dDsSwWbBntrfv' or not d.isalnum() and ord(d) < 128 and d != '_' else re.escape(d)
        elif c == '.':
            out += '[^\\n\\r]'
        elif c == '[':
            j = i
            neg = src[j:j + 1] == '^'
            j += neg
            body = ''
            while j < len(src) and src[j] != ']':
                if src[j] == '\\':
                    body += src[j:j + 2]
                    j += 2
                else:
                    body += '\\[' if src[j] == '[' else src[j]
                    j += 1
            if j >= len(src):
                return None
            i = j + 1
            out += '[%s%s]' % ('^' if neg else '', body) if body else '[\\s\\S]' if neg else '(?!)'
        elif c == '{':
            m = re.match(r'\d+(,\d*)?\}', src[i:])
            if not m or not out:
                return None
            out += '{' + m.group(0)
            i += m.end()
        elif c in ']}':
            out += '\\' + c
        elif c in '()|*+?^$':
            out += c
        else:
            out += re.escape(c)
    return out


def compiled(rx):
    src, icase = rx
    p = ecma(src)
    if p is None:
        return None
    try:
        return re.compile(p, re.ASCII | (re.IGNORECASE if icase else 0))
    except re.error:
        return None


def escape(s, esc, quote):
    return ''.join(esc + c if c in (esc, quote) else esc + 'n' if c == '\n' else c for c in s)


def unescape(s, esc, quote):
    out, i = '', 0
    while i < len(s):
        if s[i] == esc and s[i + 1:i + 2] in (esc, quote, 'n') and i + 1 < len(s):
            out += '\n' if s[i + 1] == 'n' and 'n' not in (esc, quote) else s[i + 1]
            i += 2
        else:
            out += s[i]
            i += 1
    return out


def unquote(s, q):
    if len(s) < 2:
        return ('throws', 'm::invalid_argument')
    if s[0] != q:
        return ('value', s)
    return ('value', s[1:-1]) if s[-1] == q else ('throws', 'm::invalid_argument')


def words(alpha, n):
    return [''.join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]


def text(s):
    return "'%s'" % s.replace('\\', '\\\\').replace('\n', '\\n').replace('\r', '\\r').replace('\0', '\\0')


@check('Y01', 'Escape sequences and LIKE patterns mean the same everywhere')
def y01(c):
    W = Txt(c)
    P = W.P
    full = os.environ.get('VERIF_TIER') == 'thorough'
    nob = 0

    def fn(name, n, first=None):
        fs = [f for f in P.by_q.get('m::' + name, []) if len(f.params) == n and f.body is not None and (first is None or (f.types[f.params[0]['t']].get('rec') == 'std::basic_string') == first)]
        if len(fs) != 1:
            raise AnalysisBroken('anchor vanished: m::%s' % name)
        return fs[0]

    def compare(name, got, want, shown):
        W.show = shown
        if got[0] == 'endless':
            return
        if want[0] == 'throws' != got[0]:
            W.viol('accepts', 'does not throw %s' % want[1])
        elif got[0] == 'throws' and got != want:
            W.viol('throws', 'throws %s%s' % (got[1], ' instead of ' + want[1] if want[0] == 'throws' else ''))
        elif got != want:
            W.viol('value', 'yields %s instead of %s' % (text(got[1]) if isinstance(got[1], str) else got[1], text(want[1]) if isinstance(want[1], str) else want[1]))

    # escape sequences
    esc, une, unq, itp = fn('escape', 3), fn('unescape', 3), fn('unquote', 2), fn('interpret', 3)
    every = [chr(i) for i in range(1, 256)]
    for e, q in (('\\', '"'), ('\\', "'"), ('"', '"'), ('!', '%')):
        alpha = list(dict.fromkeys([e, q, 'n', '\n', 'x', '\\']))
        ws = words(alpha, 4 if full else 3) + (every + [e + x for x in every] if e == '\\' else [])
        for w in dict.fromkeys(ws):
            show = '%s, escape character %s, quote %s' % (text(w), e, q)
            for name, f, want in (('escape', esc, ('value', escape(w, e, q))), ('unescape', une, ('value', unescape(w, e, q)))):
                W.op = 'm::' + name
                got = W.call(f, (w,), ord(e), ord(q))
                compare(name, got, want, show)
                nob += 1
            assert unescape(escape(w, e, q), e, q) == w
        for w in [q + x + q for x in words(alpha, 2)] + words(alpha, 2) + [q + x for x in words(alpha, 2)] + ['abc', '']:
            show = '%s, escape character %s, quote %s' % (text(w), e, q)
            want = unquote(w, q)
            W.op = 'm::unquote'
            compare('unquote', W.call(unq, (w,), ord(q)), want, show)
            W.op = 'm::interpret'
            if want[0] == 'value':
                want = ('value', unescape(want[1], e, q))
            compare('interpret', W.call(itp, (w,), ord(e), ord(q)), want, show)
            nob += 2
    ch = [f for f in P.by_q.get('m::escape', []) if len(f.params) == 1]
    if len(ch) != 1:
        raise AnalysisBroken('anchor vanished: m::escape(char)')
    W.op = 'm::escape(char)'
    for x in every:
        compare('escape', W.call(ch[0], ord(x) - (256 if ord(x) > 127 else 0)), ('value', escape(x, '\\', '"')), text(x))
        nob += 1
    W.op = 'm::quote'
    for w in ('', 'a', '"', 'ab"'):
        compare('quote', W.call(fn('quote', 1), (w,)), ('value', '"' + w + '"'), text(w))
        nob += 1
    W.op = 'm::replace_all'
    for w in words('ab', 4):
        for a, b in (('a', ''), ('a', 'b'), ('a', 'aa'), ('ab', 'a'), ('aa', 'a'), ('b', 'bab'), ('ba', 'ab')):
            compare('replace_all', W.call(fn('replace_all', 3), (w,), (a,), (b,)), ('value', w.replace(a, b)), '%s: %s by %s' % (text(w), a, b))
            nob += 1
    W.op = 'm::html_escape'
    for w in words('&<>a', 3) + ['&amp;', '&lt;b&gt;'] + every:
        compare('html_escape', W.call(fn('html_escape', 1), (w,)), ('value', w.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')), text(w))
        nob += 1

    # LIKE
    ptr, lk = fn('pattern_to_regex', 3), fn('like', 3)
    strings = words('ab%_\\.\n', 2) + [x + y + z for x in 'a%' for y in 'ab_\n' for z in 'a\\.'] + ['\r', 'a\rb', '\r\n', 'abab', 'aab', 'A', '++', '(', ')', '\xe4', 'a\xffb', 'aaaa', '\n\n\n'] + every
    strings = list(dict.fromkeys(strings))
    npat = 0
    for e in ('\\', '+', 'a', '!'):
        alpha = list(dict.fromkeys(['%', '_', e, 'a', '.']))
        pats = words(alpha, 3 if full or e == '\\' else 2) + ['%a%b%', '_%_', '%_', '__', '%%%', '%a%a', 'a%b_', e + e + '%', '%' + e + e, e + '%%', '_' + e + '_', 'a' + e + '%b', 'ab%ab']
        if e in ('\\', '+'):
            pats += every + [x + '%' for x in every] + [e + x for x in every] + ['[a]', '(a|b)', 'a*', 'a+', 'a?', 'a{2}', '^a', 'a$', '.', '[^a]', '\\d' if e != '\\' else 'd', 'a-b', '[[:alpha:]]', '(?:a)']
        for p in dict.fromkeys(pats):
            toks = like_tokens(p, e)
            npat += 1
            show = 'pattern %s, escape character %s' % (text(p), e)
            W.op = 'm::pattern_to_regex'
            for opt in ((0, 1) if len(p) < 2 else (len(p) % 2,)):
                W.show = show
                got = W.call(ptr, p, opt, ord(e))
                nob += 1
                if toks is None:
                    compare('pattern', got, ('throws', 'm::runtime_error'), show)
                    continue
                if got[0] != 'value':
                    compare('pattern', got, ('value', 'a regular expression'), show)
                    continue
                rx = compiled(got[1])
                if rx is None:
                    W.viol('regex', 'makes the malformed regular expression %s' % text(got[1][0]))
                    continue
                for s in strings:
                    if bool(rx.fullmatch(s)) != like(toks, s):
                        W.viol('match', 'makes %s, which %s %s' % (text(got[1][0]), 'does not match' if like(toks, s) else 'matches', text(s)))
                        break
            W.op = 'm::like'
            if toks is None:
                ss = ['', 'ab']
            else:
                yes, no = [s for s in strings if like(toks, s)], [s for s in strings if not like(toks, s)]
                near = [t[:i] + r + t[i + 1:] for t in yes[:2] for i in range(len(t) + 1) for r in ('', 'b')]
                ss = list(dict.fromkeys(yes[:4] + yes[-1:] + near[:4] + no[:2] + no[-1:] + [p, '']))
                if len(p) == 1 and p not in '%_':
                    ss = [p, chr(ord(p) % 255 + 1), p + p, '']
            for s in ss:
                want = ('throws', 'm::runtime_error') if toks is None else ('value', int(like(toks, s)))
                W.show = show
                got = W.call(lk, (s,), (p,), ord(e))
                if got[0] == 'value' and isinstance(got[1], bool):
                    got = ('value', int(got[1]))
                compare('like', got, want, '%s LIKE %s, escape character %s' % (text(s), text(p), e))
                nob += 1
    W.op = 'm::pattern_to_regex'
    for e in '_%':
        compare('pattern', W.call(ptr, 'a', 0, ord(e)), ('throws', 'm::invalid_argument'), 'escape character ' + e)
        nob += 1
    c.use(W.E)
    c.ob(nob)
    c.stat('patterns', npat)
    c.stat('strings per regular expression', len(strings))
    c.floor('obligations', nob, 3000)
    c.rule('The functions are interpreted on enumerated texts (all 255 characters alone and behind an escape character, all words over the special characters); results, exceptions and the language of the regular expression '
           'made from a pattern must be those of the reference.')
