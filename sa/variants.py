"""std::variant: the active alternative is kept at (…, '__alt'), its value at (…, ('alt', i))."""
from .engine import NULL, VOID, lam_name, targs_of
from .ir import AnalysisBroken


def norm(s):
    s = s.strip()
    if s.endswith('&'):
        s = s.rstrip('&').strip()
    if s.endswith('const') and '*' not in s.split('const')[-1]:
        s = s[:-5].strip()
    if s.startswith('const ') and '*' not in s:
        s = s[6:]
    for w in ('struct ', 'class ', 'union ', 'enum '):
        s = s.replace(w, '')
    return s.replace(' ', '')


def tstr(T):
    return (T or {}).get('canon') or (T or {}).get('s') or ''


class Variants:
    def __init__(self, W):
        self.W, self.E, self.K = W, W.E, W.K
        M = self.E.models
        M['std::get_if'] = self.get_if
        M['std::get'] = self.get
        M['std::holds_alternative'] = self.holds
        M['std::visit'] = self.visit
        M['std::variant::index'] = self.index
        M['ctor:std::variant'] = self.ctor
        M['std::variant::operator='] = self.assign
        self.E.obj_std = set(self.E.obj_std) | {'std::variant'}

    # ---- building and reading
    def put(self, st, L, i, v=None):
        st = self.E.kill_prefix(L, st).set(L + ('__alt',), i)
        return st if v is None else st.set(L + (('alt', i),), v)

    def alt(self, st, L, what=''):
        i = st.mem.get(L + ('__alt',))
        if not isinstance(i, int):
            raise AnalysisBroken('unknown alternative of a variant %s%s' % (L, what))
        return i

    # ---- models
    def var(self, e, st, fr):
        """[(location, state)] of a variant given by value, reference or pointer"""
        T = fr.fn.ty(e) or {}
        if T.get('ptr'):
            out = []
            for v, s in self.E.ev(e, st, fr):
                if v == NULL:
                    continue
                out += [(l, s2) for l, s2 in self.E.deref(v, s, e, fr)]
            return out
        return self.E.lv(e, st, fr)

    def alts(self, e, fr):
        T = fr.fn.ty(e) or {}
        s = tstr(T)
        i = s.find('variant<')
        return [norm(x) for x in targs_of({'s': s[i:] if i >= 0 else s})]

    def which(self, e, fr):
        """The alternative a get, get_if or holds_alternative asks for."""
        ta = (e.get('ta') or [''])[0]
        names = self.alts(e['args'][0], fr)
        if ta.isdigit():
            return int(ta)
        if norm(ta) in names:
            return names.index(norm(ta))
        raise AnalysisBroken('%s: alternative %s of %s' % (fr.fn.loc(e), ta, names))

    def isvar(self, e, fr):
        return 'variant<' in tstr(fr.fn.ty(e['args'][0]))

    def get_if(self, E, e, st, fr):
        k = self.which(e, fr)
        return [(('p', l + (('alt', k),)) if self.alt(s, l, ' at ' + fr.fn.loc(e)) == k else NULL, s) for l, s in self.var(e['args'][0], st, fr)]

    def holds(self, E, e, st, fr):
        k = self.which(e, fr)
        return [(int(self.alt(s, l, ' at ' + fr.fn.loc(e)) == k), s) for l, s in self.var(e['args'][0], st, fr)]

    def get(self, E, e, st, fr):
        if not self.isvar(e, fr):
            return None
        k = self.which(e, fr)
        out = []
        for l, s in self.var(e['args'][0], st, fr):
            if self.alt(s, l) == k:
                out.append((('lref', l + (('alt', k),)), s))
            else:
                E.throw('std::bad_variant_access', None, s, e, fr)
        return out

    def index(self, E, e, st, fr):
        return [(self.alt(s, l), s) for l, s in E.obj_loc(e, st, fr)]

    def pick(self, names, T, what):
        t = norm(tstr(T))
        if t in names:
            return names.index(t)
        c = [i for i, n in enumerate(names) if n.endswith('*') and t.endswith('*') and n.replace('const', '') == t.replace('const', '')]
        if len(c) == 1:
            return c[0]
        if T.get('ptr'):
            from .containers import derives
            from .ir import strip_targs
            r = lambda s: strip_targs(s.replace('const', '').rstrip('*'))
            c = [i for i, n in enumerate(names) if n.endswith('*') and derives(self.W.P, r(t), r(n))]
            if len(c) == 1:
                return c[0]
        if 'reference_wrapper<' in ''.join(names):
            c = [i for i, n in enumerate(names) if n.startswith('std::reference_wrapper<') and norm(n[len('std::reference_wrapper<'):-1].replace('const', '')) == t.replace('const', '')]
            if len(c) == 1:
                return c[0]
        raise AnalysisBroken('%s: alternative for %s among %s' % (what, t, names))

    def fill(self, a, loc, T, s, fr, what):
        """Stores the value of expression a into the variant at loc."""
        AT = fr.fn.ty(a) or {}
        names = [norm(x) for x in targs_of({'s': tstr(T)[tstr(T).find('variant<'):]})]
        out = []
        if 'variant<' in tstr(AT) and not AT.get('ptr'):
            for l, s2 in self.E.lv(a, s, fr):
                out.append(self.E.copy_obj(l, loc, s2))
            return out
        i = self.pick(names, AT, what)
        tmp = loc + ('__tmp',)
        for s2 in self.E.init_loc(tmp, AT, a, s, fr):
            s2 = move(self.E, tmp, loc + (('alt', i),), s2, loc)
            out.append(s2.set(loc + ('__alt',), i))
        return out

    def ctor(self, E, e, loc, st, fr):
        T = fr.fn.ty(e)
        if not e['args']:
            return [(VOID, self.put(st, loc, 0))]
        return [(VOID, s) for s in self.fill(e['args'][0], loc, T, st, fr, fr.fn.loc(e))]

    def assign(self, E, e, st, fr):
        T = fr.fn.ty(e['obj'])
        out = []
        for l, s in E.obj_loc(e, st, fr):
            out += [(('lref', l), s2) for s2 in self.fill(e['args'][0], l, T, s, fr, fr.fn.loc(e))]
        return out

    def visit(self, E, e, st, fr):
        if len(e['args']) != 2 or 'variant<' not in tstr(fr.fn.ty(e['args'][1])):
            return None
        names = self.alts(e['args'][1], fr)
        f = e['args'][0]
        FT = fr.fn.ty(f) or {}
        out = []
        for l, s in self.E.lv(e['args'][1], st, fr):
            i = self.alt(s, l)
            arg = l + (('alt', i),)
            argv = [('ref', arg)]
            if FT.get('lam'):
                for c, s2 in E.ev(f, s, fr):
                    out += E.call_value(c, e, s2, fr, argv)
                continue
            for fl, s2 in E.lv(f, s, fr):
                cs = {k[-1][1]: v for k, v in s2.mem.items() if len(k) == len(fl) + 1 and k[:-1] == fl and isinstance(k[-1], tuple) and k[-1][0] == 'lam'}
                cands = []
                for fn in self.W.P.funcs.values():
                    if fn.raw.get('n') != 'operator()' or len(fn.params) != 1:
                        continue
                    own = lam_name(fn.raw.get('clst') or '') in cs if cs else fn.cls == FT.get('rec')
                    if own and norm(tstr(fn.ty(fn.params[0]))) == names[i]:
                        cands = [c for c in cands if c.clst != fn.clst or c.line != fn.line] + [fn]
                if len(cands) != 1:
                    raise AnalysisBroken('%s: %d functions for alternative %s' % (fr.fn.loc(e), len(cands), names[i]))
                fn = cands[0]
                PT = fn.ty(fn.params[0])
                if not PT.get('ref') and not E.is_objtype(PT):
                    args = [[('val', v), s3] for v, s3 in E.load(arg, PT, s2, fr)]
                else:
                    args = [[('ref', arg), s2]]
                for a, s3 in args:
                    if cs:
                        out += E.call_fn(fn, [a], None, s3, e, fr, closure=cs[lam_name(fn.raw['clst'])])
                    else:
                        out += E.call_fn(fn, [a], fl, s3, e, fr)
        return out


def move(E, src, dst, st, root):
    """Moves the object at src (below root) to dst and drops everything else below root."""
    items = [(k[len(src):], v) for k, v in st.mem.items() if k[:len(src)] == src]
    st = E.kill_prefix(root, st).copy()
    for k, v in items:
        st.mem[dst + k] = v
    return st
