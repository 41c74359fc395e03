"""Output streams whose text is known: the text written so far is kept at L+('__txt',) (a tuple of pieces)."""
from .engine import VOID
from .ir import AnalysisBroken

OUT = ('root', 'out')
STREAMS = ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_iostream', 'std::basic_ofstream')


def start(st, L=OUT):
    return st.set(L + ('__txt',), ()).set(L + ('__alive',), 1)


def content(st, L=OUT):
    return st.mem.get(L + ('__txt',))


class Streams:
    def __init__(self, W):
        self.W = W
        E, M = W.E, W.E.models
        for q in ('std::operator<<', 'std::basic_ostream::operator<<', 'std::basic_ostream::put', 'std::basic_ostream::write'):
            M[q] = self.shift
        E.model_pred.insert(0, (lambda q, e: e.get('op') == '<<', self.own))
        M['ctorval:std::basic_string'] = M['ctorval:std::basic_string_view'] = self.string
        for q in ('std::basic_ostringstream', 'std::basic_stringstream'):
            M['ctor:' + q] = lambda E, e, loc, st, fr: [(VOID, start(E.kill_prefix(loc, st), loc))]
            M[q + '::str'] = self.str
        E.model_pred.append((lambda q, e: q.startswith('std::basic_string::operator') and 'string_view' in q, lambda E, e, st, fr: self.W.K.val(e['obj'], st, fr)))
        E.obj_std = set(E.obj_std) | set(STREAMS)

    def string(self, E, e, st, fr):
        """Strings made from known texts."""
        args = [a for a in e['args'] if 'allocator' not in (fr.fn.ty(a) or {}).get('s', '')]
        if not args:
            return [(('str', ''), st)]
        if len(args) == 1 and args[0]['k'] != 'ilist':
            out = []
            for v, s in self.W.K.val(args[0], st, fr):
                t = self.text(v, None, s)
                out.append((('str', t) if isinstance(t, str) else v, s))
            return out
        out = []
        for s in E.ev_list_states(args, st, fr):
            out.append((('s', ('text', ('string', E.site(e, fr)))), s))
        return out

    def own(self, E, e, st, fr):
        """Operators of the repository's own classes are interpreted."""
        fn = E.P.funcs.get(e.get('fn'))
        if fn is None or fn.body is None or e['q'] in E.models:
            return None
        ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
        if (fr.fn.ty(ops[0]) or {}).get('rec') not in STREAMS:
            return None
        if any(content(s, l) is None for l, s in E.lv(ops[0], st, fr)):
            return None
        return E.inline_call(fn, e, st, fr)

    def str(self, E, e, st, fr):
        out = []
        for l, s in E.obj_loc(e, st, fr):
            if e['args']:
                for v, s2 in self.W.K.val(e['args'][0], s, fr):
                    t = self.text(v, None, s2)
                    out.append((VOID, s2.set(l + ('__txt',), (t,) if t else ())))
                continue
            t = content(s, l)
            if t is None or not all(isinstance(x, str) for x in t):
                return None
            out.append((('str', ''.join(t)), s))
        return out

    def text(self, v, T, st):
        """Text of a value, or an opaque piece."""
        if isinstance(v, tuple) and v:
            if v[0] in ('str', 'strlit', 'lit') and len(v) == 2 and isinstance(v[1], str):
                return v[1]
            if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'text':
                return self.text(v[1][1], T, st)
            if v[0] == 'obj':
                w = st.mem.get(v[1])
                return self.text(w, T, st) if w is not None else ('piece', v)
        if isinstance(v, int):
            s = (T or {}).get('s', '').replace('const ', '')
            if s in ('char', 'signed char', 'unsigned char'):
                return chr(v & 255)
            return str(v)
        return ('piece', v)

    def shift(self, E, e, st, fr):
        ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
        if not ops:
            return None
        T0 = fr.fn.ty(ops[0]) or {}
        if T0.get('rec') not in STREAMS or len(ops) != 2:
            return None
        T = fr.fn.ty(ops[1]) or {}
        rec = T.get('rec')
        if rec and not T.get('ptr') and rec not in ('m::Pooled', 'std::basic_string', 'std::basic_string_view'):
            return None                         # the operator of the class itself
        if '(' in T.get('s', ''):
            return [(('lref', l), s) for l, s in E.lv(ops[0], st, fr)]     # manipulators
        out = []
        for l, s in E.lv(ops[0], st, fr):
            if content(s, l) is None:
                return None
            for v, s2 in self.W.K.val(ops[1], s, fr):
                if isinstance(v, tuple) and v[:1] == ('lref',):
                    v = s2.mem.get(v[1], v)
                out.append((('lref', l), self.write(s2, l, self.text(v, T, s2))))
        return out

    @staticmethod
    def write(s, l, t):
        c = content(s, l)
        if isinstance(t, str) and c and isinstance(c[-1], str):
            return s.set(l + ('__txt',), c[:-1] + (c[-1] + t,))
        return s.set(l + ('__txt',), c + (t,))
