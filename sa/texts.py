"""std::string and std::string_view whose text is known.  A string at location L is the value ('str', text); its characters
can be read at ('root', 'cstr', text, ('i', k)), which is also what pointers and iterators refer to."""
from .engine import NULL, VOID
from .ir import AnalysisBroken

CSTR = ('root', 'cstr')
CLASSES = ('std::basic_string', 'std::__cxx11::basic_string', 'std::basic_string_view')
NPOS = (1 << 64) - 1


def pointer(text, k, s):
    L = CSTR + (text,)
    if s.mem.get(L + (('i', len(text)),)) != 0:
        s = s.copy()
        for i, ch in enumerate(text):
            s.mem[L + (('i', i),)] = ord(ch) - (256 if ord(ch) > 127 else 0)
        s.mem[L + (('i', len(text)),)] = 0
    return ('p', L + (('i', k),)), s


class Texts:
    def __init__(self, E, problem):
        self.E, self.problem = E, problem
        M = E.models
        E.value_classes_exact = set(E.value_classes_exact) | set(CLASSES)
        for C in CLASSES:
            M['ctorval:' + C] = self.ctor
            for n in ('operator+=', 'push_back', 'append', 'operator=', 'assign', 'clear', 'reserve', 'pop_back', 'erase', 'replace', 'insert', 'resize', 'shrink_to_fit', 'remove_prefix', 'remove_suffix'):
                M['%s::%s' % (C, n)] = lambda E, e, st, fr, n=n: self.modify(e, st, fr, n)
            for n in ('size', 'length', 'empty', 'find', 'rfind', 'find_first_of', 'find_first_not_of', 'compare', 'starts_with', 'ends_with', 'contains', 'substr', 'str', 'begin', 'end', 'cbegin', 'cend', 'rbegin',
                      'rend', 'crbegin', 'crend', 'c_str', 'data', 'operator[]', 'at', 'front', 'back'):
                M['%s::%s' % (C, n)] = lambda E, e, st, fr, n=n: self.query(e, st, fr, n)
        E.model_pred.insert(0, (lambda q, e: any(q.startswith(C + '::operator ') for C in CLASSES), lambda E, e, st, fr: [(self.strv(v, s, e, fr), s) for v, s in self.vals([e['obj']], st, fr, True)]))
        E.model_pred.insert(0, (lambda q, e: e.get('op') in ('+', '==', '!=', '<', '>', '<=', '>=') and q.startswith('std::'), self.binary))
        for n in ('strcmp', 'strncmp', 'strlen', 'memcmp', 'strchr'):
            for p in ('', 'std::', '__builtin_'):
                M[p + n] = lambda E, e, st, fr, n=n: self.cfun(e, st, fr, n)
        for n, h in (('tolower', lambda c: ord(chr(c).lower())), ('toupper', lambda c: ord(chr(c).upper())), ('isalpha', lambda c: chr(c).isalpha()), ('isalnum', lambda c: chr(c).isalnum()),
                     ('isdigit', lambda c: chr(c).isdigit()), ('isspace', lambda c: chr(c) in ' \t\n\v\f\r'), ('ispunct', lambda c: 32 < c < 127 and not chr(c).isalnum()), ('isprint', lambda c: 31 < c < 127),
                     ('islower', lambda c: chr(c).islower()), ('isupper', lambda c: chr(c).isupper())):
            for p in ('', 'std::'):
                M[p + n] = lambda E, e, st, fr, h=h: self.ctype(e, st, fr, h)
        old = E.range_elems
        E.range_elems = lambda n, rl, s, fr: self.elems(rl, s) if self.known(rl, s) else (old(n, rl, s, fr) if old else None)
        prev = E.range_hook
        E.range_hook = lambda n, st, fr: self.prepare(n, st, fr, prev)

    fallback = None       # texts in other representations

    # -- helpers
    def known(self, l, s):
        v = s.mem.get(l)
        return isinstance(v, tuple) and v[:1] == ('str',)

    def elems(self, l, s):
        t = s.mem[l][1]
        p, s2 = pointer(t, 0, s)
        s.mem.update({k: v for k, v in s2.mem.items() if k[:3] == CSTR + (t,)})
        return [CSTR + (t, ('i', k)) for k in range(len(t))]

    def prepare(self, n, st, fr, prev):
        return prev(n, st, fr) if prev else None

    def isstr(self, a, fr):
        T = fr.fn.ty(a) or {}
        return T.get('rec') in CLASSES and not T.get('ptr')

    def vals(self, args, st, fr, one=False):
        out = [((), st)]
        for a in args:
            n = []
            for p, s in out:
                for v, s2 in self.E.ev_ptr(a, s, fr):
                    for _ in range(3):
                        if isinstance(v, tuple) and v and v[0] in ('lref', 'obj') and s2.mem.get(v[1]) is not None:
                            v = s2.mem[v[1]]
                    n.append((p + (self.E.simplify(v, s2),), s2))
            out = n
        return [(p[0], s) for p, s in out] if one else out

    def strv(self, v, s, e, fr):
        return ('str', self.text(v, s, e, fr))

    def text(self, v, s, e, fr):
        """The text of a string, or the one a pointer to characters refers to."""
        if isinstance(v, int) and not isinstance(v, bool):
            return chr(v & 255)
        if isinstance(v, tuple) and v:
            if v[0] in ('str', 'strlit', 'lit') and isinstance(v[1], str):
                return v[1]
            if v[0] == 's' and isinstance(v[1], tuple) and v[1][:1] == ('init',) and v[1][1][:2] == CSTR:
                self.problem('bounds', 'reads a text outside of its characters', e, fr)
                return ''
            if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'text':
                return self.text(v[1][1], s, e, fr)
            if v[0] == 'p' and v[1][:2] == CSTR:
                t, k = v[1][2], v[1][3][1]
                if not 0 <= k <= len(t):
                    self.problem('bounds', 'reads a text outside of its characters', e, fr)
                    return ''
                return t[k:].split('\0')[0]
            if v[0] in ('p', 'lref', 'obj') and v[1] in s.mem:
                return self.text(s.mem[v[1]], s, e, fr)
        if self.fallback:
            return self.fallback(v, s, e, fr)
        raise AnalysisBroken('%s: unknown text %s' % (fr.fn.loc(e), str(v)[:80]))

    def ispos(self, v):
        return isinstance(v, tuple) and v[:1] == ('p',) and v[1][:2] == CSTR

    # -- models
    def ctor(self, E, e, st, fr):
        args = [a for a in e['args'] if a['k'] != 'dfltarg' and (fr.fn.ty(a) or {}).get('rec') not in ('std::allocator', 'std::__new_allocator')]
        il = self.ilist(args)
        if il is not None:
            return [(('str', ''.join(chr(x & 255) for x in v)), s) for v, s in self.vals(il, st, fr)]
        out = []
        for v, s in self.vals(args, st, fr):
            out.append((('str', self.make(args, v, s, e, fr)), s))
        return out

    def ilist(self, args):
        """The elements of the list of characters that is the only argument."""
        if len(args) != 1:
            return None
        a = args[0]
        while a['k'] in ('cast', 'stdil') and 'e' in a:
            a = a['e']
        return a['es'] if a['k'] == 'ilist' else None

    def make(self, args, v, s, e, fr):
        if not v:
            return ''
        if len(v) == 1:
            return self.text(v[0], s, e, fr)
        if all(isinstance(x, tuple) and x[:1] == ('it',) for x in v[:2]) and v[0][1] == v[1][1]:      # elements of a vector
            from .containers import elems, seq
            ids = seq(s, v[0][1])
            i, j = (len(ids) if x[2] == 'end' else ids.index(x[2]) for x in v[:2])
            return ''.join(chr(s.mem.get(x) & 255) for x in elems(s, v[0][1])[i:j])
        if isinstance(v[0], int):
            return chr(v[1] & 255) * v[0]
        if self.ispos(v[0]) and self.ispos(v[1]):
            if v[0][1][2] != v[1][1][2]:
                self.problem('range', 'uses a range of iterators of different strings', e, fr)
                return ''
            t, i, j = v[0][1][2], v[0][1][3][1], v[1][1][3][1]
            if not 0 <= i <= j <= len(t):
                self.problem('range', 'uses an invalid range of characters', e, fr)
                return ''
            return t[i:j]
        if isinstance(v[0], tuple) and v[0][:1] == ('rit',):
            t = v[0][1][2]
            return t[v[1][2]:v[0][2]][::-1]
        if self.isstr(args[0], fr):
            t = self.text(v[0], s, e, fr)
            if v[1] > len(t):
                self.problem('range', 'takes a part behind the end of a string', e, fr)
                return ''
            return t[v[1]:][:v[2] if len(v) > 2 and v[2] not in (-1, NPOS) else None]
        if self.ispos(v[0]):
            t, k = v[0][1][2], v[0][1][3][1]
            return t[k:k + v[1]]
        return self.text(v[0], s, e, fr)[:v[1]]

    def place(self, v, n, s, e, fr):
        """Position of an argument: an index or an iterator."""
        if self.ispos(v):
            return v[1][3][1]
        if isinstance(v, int):
            return n if v in (-1, NPOS) else v
        raise AnalysisBroken('%s: unknown position' % fr.fn.loc(e))

    def modify(self, e, st, fr, n):
        E = self.E
        out = []
        args = [a for a in e['args'] if a['k'] != 'dfltarg']
        il = self.ilist(args)
        for l, s in E.obj_loc(e, st, fr):
            for v, s2 in self.vals(args, s, fr) if il is None else [((('str', ''.join(chr(x & 255) for x in w)),), s3) for w, s3 in self.vals(il, s, fr)]:
                if n in ('operator=', 'assign'):
                    t = self.make(args, v, s2, e, fr)
                else:
                    old = s2.mem.get(l)
                    if not (isinstance(old, tuple) and old[:1] == ('str',)):
                        raise AnalysisBroken('%s: unknown string' % fr.fn.loc(e))
                    old = t = old[1]
                    if n in ('operator+=', 'push_back', 'append'):
                        t = old + self.make(args, v, s2, e, fr)
                    elif n == 'clear':
                        t = ''
                    elif n == 'pop_back':
                        if not old:
                            self.problem('bounds', 'removes a character of an empty string', e, fr)
                        t = old[:-1]
                    elif n == 'resize':
                        t = old[:v[0]] + chr((v[1] if len(v) > 1 else 0) & 255) * (v[0] - len(old))
                    elif n == 'remove_prefix':
                        t = old[v[0]:]
                    elif n == 'remove_suffix':
                        t = old[:len(old) - v[0]]
                    elif n in ('erase', 'replace', 'insert'):
                        i = self.place(v[0], len(old), s2, e, fr) if v else 0
                        if not 0 <= i <= len(old):
                            E.throw('std::out_of_range', None, s2, e, fr)
                            continue
                        if n == 'erase':
                            j = (i + 1 if self.ispos(v[0]) else len(old)) if len(v) < 2 else v[1][1][3][1] if self.ispos(v[1]) else len(old) if v[1] in (-1, NPOS) else i + v[1]
                            t = old[:i] + old[j:]
                        elif n == 'insert':
                            t = old[:i] + self.make(args[1:], v[1:], s2, e, fr) + old[i:]
                        else:
                            j = v[1][1][3][1] if self.ispos(v[1]) else len(old) if v[1] in (-1, NPOS) else i + v[1]
                            t = old[:i] + self.make(args[2:], v[2:], s2, e, fr) + old[j:]
                s3 = s2.set(l, ('str', t))
                if n in ('erase', 'insert') and v and self.ispos(v[0]):
                    out.append(pointer(t, v[0][1][3][1], s3))
                else:
                    out.append((('lref', l), s3))
        return out

    def query(self, e, st, fr, n):
        E = self.E
        out = []
        args = [a for a in e['args'] if a['k'] != 'dfltarg']
        for t, s in self.vals([e['obj']], st, fr, True):
            t = self.text(t, s, e, fr) if not (isinstance(t, tuple) and t[:1] == ('str',)) else t[1]
            for v, s in self.vals(args, s, fr):
                if n in ('size', 'length'):
                    out.append((len(t), s))
                elif n == 'empty':
                    out.append((int(not t), s))
                elif n in ('begin', 'cbegin', 'c_str', 'data'):
                    out.append(pointer(t, 0, s))
                elif n in ('end', 'cend'):
                    out.append(pointer(t, len(t), s))
                elif n in ('rbegin', 'crbegin', 'rend', 'crend'):
                    s = pointer(t, 0, s)[1]
                    out.append((('rit', CSTR + (t,), len(t) if 'begin' in n else 0), s))
                elif n in ('operator[]', 'at', 'front', 'back'):
                    i = v[0] if v else 0 if n == 'front' else len(t) - 1
                    if not isinstance(i, int):
                        raise AnalysisBroken('%s: unknown index' % fr.fn.loc(e))
                    if n == 'at' and not 0 <= i < len(t):
                        E.throw('std::out_of_range', None, s, e, fr)
                        continue
                    if not 0 <= i < len(t) + (n == 'operator[]'):
                        self.problem('bounds', 'accesses character %d of a string of %d characters' % (i, len(t)), e, fr)
                        continue
                    p, s = pointer(t, i, s)
                    out.append((('lref', p[1]), s))
                elif n == 'substr':
                    i = v[0] if v else 0
                    if i > len(t):
                        E.throw('std::out_of_range', None, s, e, fr)
                        continue
                    out.append((('str', t[i:][:v[1] if len(v) > 1 and v[1] not in (-1, NPOS) else None]), s))
                elif n in ('starts_with', 'ends_with', 'contains'):
                    x = self.text(v[0], s, e, fr)
                    out.append((int({'starts_with': t.startswith, 'ends_with': t.endswith, 'contains': t.__contains__}[n](x)), s))
                elif n == 'compare' and len(v) == 1:
                    x = self.text(v[0], s, e, fr)
                    out.append(((t > x) - (t < x), s))
                elif n in ('find', 'rfind', 'find_first_of', 'find_first_not_of'):
                    x = self.text(v[0], s, e, fr)
                    k = v[1] if len(v) > 1 else 0
                    if n == 'find':
                        r = t.find(x, k) if k <= len(t) else -1
                    elif n == 'rfind':
                        r = t.rfind(x)
                    else:
                        r = next((i for i in range(k, len(t)) if (t[i] in x) == (n == 'find_first_of')), -1)
                    out.append((NPOS if r < 0 else r, s))
                else:
                    raise AnalysisBroken('%s: string operation %s' % (fr.fn.loc(e), n))
        return out

    def binary(self, E, e, st, fr):
        ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
        if len(ops) != 2 or not any(self.isstr(a, fr) for a in ops):
            return None
        out = []
        for (a, b), s in self.vals(ops, st, fr):
            a, b = self.text(a, s, e, fr), self.text(b, s, e, fr)
            if e['op'] == '+':
                out.append((('str', a + b), s))
            else:
                out.append((int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e['op']]), s))
        return out

    def ctype(self, e, st, fr, h):
        out = []
        for v, s in self.vals(e['args'][:1], st, fr, True):
            if not isinstance(v, int):
                return None
            out.append((int(h(v)) if 0 <= v < 128 else v if h(65) in (65, 97) else 0, s))
        return out

    def cfun(self, e, st, fr, n):
        out = []
        for v, s in self.vals(e['args'], st, fr):
            a = self.text(v[0], s, e, fr)
            if n == 'strlen':
                out.append((len(a), s))
            elif n == 'strchr':
                i = a.find(chr(v[1] & 255)) if v[1] else len(a)
                if i < 0:
                    out.append((NULL, s))
                else:
                    t, k = (v[0][1][2], v[0][1][3][1]) if self.ispos(v[0]) else (a, 0)
                    out.append(pointer(t, k + i, s))
            else:
                b = self.text(v[1], s, e, fr)
                if len(v) > 2:
                    a, b = a[:v[2]], b[:v[2]]
                out.append(((a > b) - (a < b), s))
        return out
