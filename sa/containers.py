"""Models of standard containers whose contents are known element by element.

A container at location L keeps the tuple of its node ids in L+('__seq',); the element with id i lives at L+(('n', i),).
The elements of maps have the parts 'first' and 'second'.  An iterator is ('it', L, id | 'end').  A container without
'__seq' is not modelled: its operations fall back to the engine's opaque treatment.
"""
from .ir import AnalysisBroken
from .engine import NULL
from .stdmodel import SMART, VOID, strip_targs

SEQS = ('std::vector', 'std::list', 'std::deque')
MAPS = ('std::unordered_map', 'std::map')
SETS = ('std::unordered_set', 'std::set')
ALL = SEQS + MAPS + SETS
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator',
         'std::reverse_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
         'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base',
         'std::__detail::_Node_iterator_base')


INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'std::size_t', 'size_t')


def seq(st, L):
    return st.mem.get(L + ('__seq',))


def node(L, i):
    return L + (('n', i),)


def make(st, L, nids=()):
    return st.set(L + ('__seq',), tuple(nids))


def elems(st, L):
    return [node(L, i) for i in st.mem[L + ('__seq',)]]


def newid(st, L):
    """A fresh node id: the number of insertions so far (kept small by reuse of free numbers)."""
    used = set(seq(st, L))
    i = 0
    while i in used:
        i += 1
    return i


class Containers:
    def __init__(self, E, key_eq=None, problem=None):
        self.E = E
        self.problem = problem or (lambda key, msg, e, fr: None)
        E.obj_std = set(E.obj_std) | set(ALL)
        M = E.models
        self.insts(M)
        old = E.range_elems
        E.range_elems = lambda n, rl, s, fr: elems(s, rl) if seq(s, rl) is not None else (old(n, rl, s, fr) if old else None)

    # -- helpers
    def cont(self, e, st, fr):
        return self.E.obj_loc(e, st, fr)

    def known(self, f):
        """Wraps a handler f(l, e, s, fr): used when the container is known in every state."""
        def h(E, e, st, fr):
            ls = self.cont(e, st, fr)
            if any(seq(s, l) is None for l, s in ls):
                return None
            return [x for l, s in ls for x in f(l, e, s, fr)]
        return h

    def val(self, e, st, fr):
        """Value of an argument; objects are given by their location."""
        out = []
        T = fr.fn.ty(e)
        if T and not T.get('ptr') and self.E.is_objtype(T):
            if e['k'] in ('ref', 'mem', 'idx', 'un') or e.get('k') == 'call':
                return [(('obj', l), s) for l, s in self.E.lv(e, st, fr)]
        for v, s in self.E.ev(e, st, fr):
            if isinstance(v, tuple) and v and v[0] == 'lref':
                for v2, s2 in self.E.load(v[1], T, s, fr):
                    out.append((v2, s2))
            else:
                out.append((self.E.simplify(v, s), s))
        return out

    def eq(self, a, b, st):
        """Splits on the equality of two keys: [(bool, st)]"""
        a, b = self.E.simplify(a, st), self.E.simplify(b, st)
        if a == b:
            return [(1, st)]
        return self.E.split(self.E.fold('==', (a, b)), st)

    def keyloc(self, L, i, mp):
        return node(L, i) + ('first',) if mp else node(L, i)

    def isobj(self, v):
        return isinstance(v, tuple) and v and v[0] == 'obj'

    def find(self, L, k, st, mp, fr):
        """[(id | None, st)]"""
        out = []
        todo = [(0, st)]
        while todo:
            n, s = todo.pop()
            ids = seq(s, L)
            if n >= len(ids):
                out.append((None, s))
                continue
            kl = self.keyloc(L, ids[n], mp)
            kv, s = self.E.read(kl, None, s)
            for b, s2 in self.eq(kv, k, s):
                if b:
                    out.append((ids[n], s2))
                else:
                    todo.append((n + 1, s2))
        return out

    def elem_init(self, loc, args, st, fr, e, ET):
        """Initialises an element from the arguments of emplace/push_back: list of states."""
        E = self.E
        if len(args) == 1:
            T = dict(fr.fn.ty(args[0]) or {})
            T.pop('ref', None)
            if T.get('rec') in SMART and not T.get('ptr'):
                return [E.write(loc, v, E.kill_prefix(loc, s), e, fr) for v, s in E.take(E, args[0], st, fr)]
            if ET is None or ET['same'] is None or strip_targs(T.get('s', '').replace('&', '')) == ET['same'] or T.get('rec') == ET['same']:
                return [self.alive(s, loc, T) for s in E.init_loc(loc, T, args[0], st, fr)]
        if ET is not None and ET['same'] == 'std::reference_wrapper' and len(args) == 1:
            return [s.set(loc, ('p', l)) for l, s in E.lv(args[0], st, fr)]
        if ET is not None and ET['same'] == 'std::pair' and len(args) == 2:
            states = [E.kill_prefix(loc, st).set(loc + ('__alive',), 1)]
            for f, a in zip(('first', 'second'), args):
                T = dict(fr.fn.ty(a) or {})
                T.pop('ref', None)
                states = [s2 for s in states for s2 in E.init_loc(loc + (f,), T, a, s, fr)]
            return states
        if ET is not None and ET['same'] in E.P.recs:
            q = ET['same']
            h = E.models.get('ctor:' + q)
            if h:
                return [s for _, s in h(E, dict(e, q=q, args=args, _id=e.get('_id', id(e))), loc, st, fr)]
            cands = [f for f in E.P.funcs.values() if f.kind == 'ctor' and f.cls == q and len(f.params) >= len(args) and f.body is not None
                     and all('dv' in p for p in f.params[len(args):])
                     and not f.raw.get('cm')]
            if len(cands) > 1:
                def score(f):
                    n = 0
                    for p, a in zip(f.params, args):
                        A = fr.fn.ty(a) or {}
                        B = f.types[p['t']]
                        n += (A.get('rec') == B.get('rec')) + (bool(A.get('ptr')) == bool(B.get('ptr')))
                    return n
                cands.sort(key=score, reverse=True)
                cands = cands[:1]
            if len(cands) == 1:
                out = []
                for av, s in E.ev_args(args, cands[0], st, fr):
                    for p in cands[0].params[len(args):]:
                        from .engine import Frame
                        av = tuple(av) + (('val', E.ev(p['dv'], s, Frame(cands[0], fr.depth + 1))[0][0]),)
                    s = E.kill_prefix(loc, s).set(loc + ('__alive',), 1)
                    for _, s2 in E.call_fn(cands[0], av, loc, s, e, fr):
                        out.append(s2)
                return out
            # an aggregate
            rec = E.P.recs[q]
            fs = [f for f in rec['fields']]
            if len(fs) >= len(args):
                states = [E.kill_prefix(loc, st).set(loc + ('__alive',), 1)]
                for f, a in zip(fs, args):
                    FT = rec['types'][f['t']]
                    states = [s2 for s in states for s2 in E.init_loc(loc + (f['n'],), FT, a, s, fr)]
                return states
        if len(args) == 1:
            T = dict(fr.fn.ty(args[0]) or {})
            T.pop('ref', None)
            return E.init_loc(loc, T, args[0], st, fr)
        if not args:
            if ET is not None and ET.get('int'):
                return [st.set(loc, 0)]
            return [E.kill_prefix(loc, st).set(loc + ('__alive',), 1)]
        raise AnalysisBroken('%s: cannot model the construction of an element' % fr.fn.loc(e))

    def alive(self, s, loc, T):
        return s

    def et(self, e, fr, mp=False):
        """Element type of the container a member call is made on."""
        T = fr.fn.ty(e['obj']) or {}
        s = T.get('canon') or T.get('s') or ''
        if e.get('arrow') or T.get('ptr'):
            s = s.rstrip('* ')
        i = s.find('<')
        if i < 0:
            return None
        parts, d, cur = [], 0, ''
        for ch in s[i + 1:]:
            if ch == '<':
                d += 1
            if ch == '>':
                if d == 0:
                    break
                d -= 1
            if ch == ',' and d == 0:
                parts.append(cur)
                cur = ''
                continue
            cur += ch
        parts.append(cur)
        p = parts[1 if mp and len(parts) > 1 else 0]
        n = strip_targs(p)
        return {'same': n if not p.rstrip().endswith(('*', '* const')) else None, 'int': n in ('int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char')}

    def put(self, st, L, k, i):
        ids = list(seq(st, L))
        ids.insert(k, i)
        return st.set(L + ('__seq',), tuple(ids))

    def it(self, st, L, k):
        ids = seq(st, L)
        return ('it', L, ids[k] if 0 <= k < len(ids) else 'end')

    def pos(self, st, v):
        ids = seq(st, v[1])
        if ids is None:
            raise AnalysisBroken('iterator of an unknown container')
        if v[2] == 'end':
            return len(ids)
        return ids.index(v[2]) if v[2] in ids else None

    def step(self, st, v, d, e, fr):
        rev = v[0] == 'rit'
        k = self.pos(st, v)
        if k is None:
            self.problem('dangling', 'uses an iterator to a removed element', e, fr)
            return ('it', v[1], 'end')
        k += -d if rev else d
        n = len(seq(st, v[1]))
        if not 0 <= k <= n:
            self.problem('bounds', 'moves an iterator out of its container', e, fr)
            k = max(0, min(k, n))
        return (v[0],) + self.it(st, v[1], k)[1:]

    def target(self, st, v, e, fr):
        if not (isinstance(v, tuple) and v and v[0] in ('it', 'rit')):
            return None
        k = self.pos(st, v)
        if k is None:
            self.problem('dangling', 'dereferences an iterator to a removed element', e, fr)
            return False
        if v[0] == 'rit':
            k -= 1
        ids = seq(st, v[1])
        if not 0 <= k < len(ids):
            self.problem('end', 'dereferences an iterator that refers to no element', e, fr)
            return False
        return node(v[1], ids[k])

    on_remove = None     # (loc of the element, st) -> st

    def remove(self, st, L, i):
        if self.on_remove:
            st = self.on_remove(node(L, i), st)
        ids = tuple(x for x in seq(st, L) if x != i)
        return self.E.kill_prefix(node(L, i), st).set(L + ('__seq',), ids)

    # -- installation
    def insts(self, M):
        E = self.E
        K = self.known

        def ctor(E, e, loc, st, fr):
            a = [x for x in e['args'] if not (x['k'] == 'ctor' and x.get('q') == 'std::allocator')]
            if not a:
                return [(VOID, make(E.kill_prefix(loc, st).set(loc + ('__alive',), 1), loc))]
            T = fr.fn.ty(a[0]) or {}
            if len(a) == 1 and T.get('rec') == e['q']:
                out = []
                for l, s in E.lv(a[0], st, fr):
                    s2 = E.copy_obj(l, loc, s)
                    if (a[0].get('q') == 'std::move' or a[0].get('xv')) and seq(s2, l) is not None and l != loc:
                        s2 = E.kill_prefix(l, s2).set(l + ('__alive',), 1)
                        s2 = make(s2, l)
                    out.append((VOID, s2))
                return out
            if len(a) == 1 and a[0]['k'] == 'ilist' or a[0]['k'] == 'ctor' and a[0].get('q') == 'std::initializer_list':
                il = a[0]
                while il['k'] == 'ctor' and il['args']:
                    il = il['args'][0]
                if il['k'] == 'ilist':
                    states = [make(E.kill_prefix(loc, st).set(loc + ('__alive',), 1), loc)]
                    for i, x in enumerate(il['es']):
                        T = dict(fr.fn.ty(x) or {})
                        T.pop('ref', None)
                        states = [self.put(s2, loc, i, i) for s in states for s2 in E.init_loc(node(loc, i), T, x, s, fr)]
                    return [(VOID, s) for s in states]
            if e['q'] in ('std::vector', 'std::deque') and len(a) <= 2 and not T.get('rec') and not T.get('ptr'):
                out = []
                ty = (fr.fn.ty(e) or {}).get('canon') or (fr.fn.ty(e) or {}).get('s') or ''
                el = ty[ty.find('<') + 1:].split(',')[0].strip()
                for n, s in E.ev(a[0], st, fr):
                    d = NULL if el.endswith('*') else 0 if el.replace('const ', '') in INTS else None
                    if not isinstance(n, int) or n > 256 or len(a) == 1 and d is None:
                        out = None
                        break
                    s = make(E.kill_prefix(loc, s).set(loc + ('__alive',), 1), loc, range(n))
                    states = [s]
                    for i in range(n):
                        if len(a) == 1:
                            states = [x.set(node(loc, i), d) for x in states]
                        else:
                            VT = dict(fr.fn.ty(a[1]) or {})
                            VT.pop('ref', None)
                            states = [y for x in states for y in E.init_loc(node(loc, i), VT, a[1], x, fr)]
                    out += [(VOID, x) for x in states]
                if out is not None:
                    return out
            if len(a) == 2:
                out = []
                for x, s in E.ev(a[0], st, fr):
                    for y, s2 in E.ev(a[1], s, fr):
                        if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == ('it',) and y[:2] == x[:2]:
                            p, q = self.pos(s2, x), self.pos(s2, y)
                            ids = seq(s2, x[1])[p:q]
                            s2 = E.kill_prefix(loc, s2).set(loc + ('__alive',), 1)
                            for k in ids:
                                s2 = E.copy_obj(node(x[1], k), node(loc, k), s2)
                                s2.mem.pop(node(loc, k) + ('__o',), None)
                            out.append((VOID, make(s2, loc, ids)))
                        else:
                            out.append((VOID, E.havoc(loc, s2, None, ('ctor', E.site(e, fr)))))
                return out
            out = []
            for s in E.ev_list_states(a, st, fr):
                out.append((VOID, E.havoc(loc, s, fr.fn.ty(e), ('ctor', E.site(e, fr))).set(loc + ('__alive',), 1)))
            return out

        def assign(E, e, st, fr):
            a = e['args'][0]
            T = fr.fn.ty(a) or {}
            if T.get('rec') not in ALL and not E.container_base(T.get('rec') or ''):
                return None
            out = []
            for l, s in E.lv(a, st, fr):
                for d, s2 in self.cont(e, s, fr):
                    if l == d:
                        out.append((('lref', d), s2))
                        continue
                    s3 = E.copy_obj(l, d, s2)
                    if (a.get('q') == 'std::move' or a.get('xv')) and seq(s3, l) is not None:
                        s3 = make(E.kill_prefix(l, s3).set(l + ('__alive',), 1), l)
                    out.append((('lref', d), s3))
            return out

        for C in ALL:
            M['ctor:' + C] = ctor
            M[C + '::operator='] = assign
            mp = C in MAPS
            assoc = C in MAPS + SETS
            M[C + '::size'] = K(lambda l, e, s, fr: [(len(seq(s, l)), s)])
            M[C + '::empty'] = K(lambda l, e, s, fr: [(int(not seq(s, l)), s)])
            M[C + '::reserve'] = K(lambda l, e, s, fr: [(VOID, s)])
            M[C + '::clear'] = K(lambda l, e, s, fr: [(VOID, make(self.wipe(s, l), l))])
            for n in ('begin', 'cbegin'):
                M[C + '::' + n] = K(lambda l, e, s, fr: [(self.it(s, l, 0), s)])
            for n in ('end', 'cend'):
                M[C + '::' + n] = K(lambda l, e, s, fr: [(('it', l, 'end'), s)])
            for n in ('rbegin', 'crbegin'):
                M[C + '::' + n] = K(lambda l, e, s, fr: [(('rit', l, 'end'), s)])
            for n in ('rend', 'crend'):
                M[C + '::' + n] = K(lambda l, e, s, fr: [(('rit',) + self.it(s, l, 0)[1:], s)])
            M[C + '::erase'] = K(lambda l, e, s, fr, mp=mp, assoc=assoc: self.erase(l, e, s, fr, mp, assoc))
            for n in ('remove_if', 'remove'):
                M[C + '::' + n] = K(lambda l, e, s, fr, n=n: self.remove_matching(l, e['args'][0], e, s, fr, n == 'remove'))
            if assoc:
                M[C + '::find'] = K(lambda l, e, s, fr, mp=mp: [
                    (('it', l, 'end' if i is None else i), s3) for k, s2 in self.val(e['args'][0], s, fr) for i, s3 in self.find(l, k, s2, mp, fr)])
                M[C + '::contains'] = K(lambda l, e, s, fr, mp=mp: [
                    (int(i is not None), s3) for k, s2 in self.val(e['args'][0], s, fr) for i, s3 in self.find(l, k, s2, mp, fr)])
                M[C + '::count'] = M[C + '::contains']
                for n in ('emplace', 'try_emplace', 'insert', 'emplace_hint', 'insert_or_assign'):
                    M[C + '::' + n] = K(lambda l, e, s, fr, n=n, mp=mp: self.insert_assoc(l, e, s, fr, n, mp))
                if mp:
                    M[C + '::at'] = K(lambda l, e, s, fr: self.map_at(l, e, s, fr))
                    M[C + '::operator[]'] = K(lambda l, e, s, fr: self.map_sub(l, e, s, fr))
            else:
                for n in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace'):
                    M[C + '::' + n] = K(lambda l, e, s, fr, n=n: self.insert_seq(l, e, s, fr, n))
                for n, i in (('front', 0), ('back', -1)):
                    M[C + '::' + n] = K(lambda l, e, s, fr, i=i: self.endel(l, e, s, fr, i))
                for n, i in (('pop_front', 0), ('pop_back', -1)):
                    M[C + '::' + n] = K(lambda l, e, s, fr, i=i: self.drop(l, e, s, fr, i))
                M[C + '::at'] = K(lambda l, e, s, fr: self.sub(l, e, s, fr, True))
                M[C + '::operator[]'] = K(lambda l, e, s, fr: self.sub(l, e, s, fr, False))

        M['std::vector::data'] = K(lambda l, e, s, fr: [(('p', node(l, seq(s, l)[0])) if seq(s, l) else NULL, s)])

        def passit(E, e, st, fr):
            if not e['args']:
                return [(('it0',), st)]
            return E.ev(e['args'][0], st, fr)
        for C in ITERS:
            M['ctorval:' + C] = passit
            M[C + '::operator*'] = self.star
            M[C + '::operator->'] = lambda E, e, st, fr: self.arrow(e, st, fr)
            M[C + '::operator[]'] = lambda E, e, st, fr: self.itsub(e, st, fr)
            for n, d in (('operator++', 1), ('operator--', -1)):
                M[C + '::' + n] = lambda E, e, st, fr, d=d: self.bump(e, st, fr, d)
            for n, d in (('operator+', 1), ('operator-', -1), ('operator+=', 1), ('operator-=', -1)):
                M[C + '::' + n] = lambda E, e, st, fr, d=d, n=n: self.arith(e, st, fr, d, n)
            M[C + '::operator='] = lambda E, e, st, fr: [(('lref', l), s2.set(l, v)) for v, s in E.ev(e['args'][0], st, fr) for l, s2 in E.lv(e['obj'], s, fr)]
            M[C + '::base'] = lambda E, e, st, fr: [(('it',) + v[1:] if isinstance(v, tuple) and v[:1] == ('rit',) else v, s) for v, s in self.itval(e['obj'], st, fr)]
        for n in ('next', 'prev'):
            M['std::' + n] = lambda E, e, st, fr, n=n: self.nextprev(e, st, fr, 1 if n == 'next' else -1)
        M['std::distance'] = lambda E, e, st, fr: self.distance(e, st, fr)
        M['std::advance'] = lambda E, e, st, fr: self.advance(e, st, fr)
        M['std::iota'] = self.iota
        M['std::_Bit_reference::operator bool'] = self.bitval
        M['std::_Bit_reference::operator='] = self.bitset

        def erase_if(E, e, st, fr):
            return [r for l, s in E.lv(e['args'][0], st, fr) for r in (self.remove_matching(l, e['args'][1], e, s, fr) if seq(s, l) is not None else [])] or None
        M['std::erase_if'] = erase_if
        for n in ('std::find_if', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find', 'std::count_if', 'std::for_each',
                  'std::count'):
            M[n] = lambda E, e, st, fr, n=n: self.algo(e, st, fr, n[5:])
        for n in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size', 'std::empty', 'std::ssize'):
            M[n] = lambda E, e, st, fr, n=n: self.free(e, st, fr, n[5:])

        def cmpit(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            if len(ops) != 2:
                return None
            T = fr.fn.ty(ops[0]) or {}
            if 'iterator' not in (T.get('rec') or T.get('s', '')).lower():
                return None
            out = []
            for a, s in self.itval(ops[0], st, fr):
                for b, s2 in self.itval(ops[1], s, fr):
                    if not (isinstance(a, tuple) and isinstance(b, tuple) and a[:1] in (('it',), ('rit',)) and b[:2] == a[:2]):
                        return None
                    if e['op'] in ('==', '!='):
                        out.append((int((a == b) == (e['op'] == '==')), s2))
                    else:
                        x, y = self.pos(s2, a), self.pos(s2, b)
                        if a[0] == 'rit':
                            x, y = y, x
                        out.append((int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[e['op']]), s2))
            return out
        E.model_pred.insert(0, (lambda q, e: e.get('op') in ('==', '!=', '<', '>', '<=', '>='), cmpit))

        # three-way comparisons yield -1, 0 or 1, which comparisons with the literal 0 test
        def threeway(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            out = []
            for a, s in self.itval(ops[0], st, fr):
                for b, s2 in self.itval(ops[1], s, fr):
                    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] in (('it',), ('rit',)) and b[:2] == a[:2]:
                        d = self.pos(s2, a) - self.pos(s2, b)
                        d = -d if a[0] == 'rit' else d
                    elif isinstance(a, int) and isinstance(b, int):
                        d = a - b
                    else:
                        return None
                    out.append(((d > 0) - (d < 0), s2))
            return out
        E.model_pred.insert(0, (lambda q, e: q.endswith('::operator<=>') and (q.startswith('std::') or q.startswith('__gnu')), threeway))

        def ordtest(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            Ts = [((fr.fn.ty(x) or {}).get('rec') or '') for x in ops]
            k = next((i for i, t in enumerate(Ts) if t in ('std::strong_ordering', 'std::weak_ordering', 'std::partial_ordering')), None)
            if k is None or len(ops) != 2:
                return None
            out = []
            for a, s in self.itval(ops[k], st, fr):
                if not isinstance(a, int):
                    return None
                x, y = (a, 0) if k == 0 else (0, a)
                out.append((int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[e['op']]), s))
            return out
        E.model_pred.insert(0, (lambda q, e: q.startswith('std::operator') and e.get('op') in ('==', '!=', '<', '>', '<=', '>='), ordtest))
        for n in ('is_lt', 'is_gt', 'is_lteq', 'is_gteq', 'is_eq', 'is_neq'):
            M['std::' + n] = lambda E, e, st, fr, n=n: [(int({'is_lt': v < 0, 'is_gt': v > 0, 'is_lteq': v <= 0, 'is_gteq': v >= 0, 'is_eq': v == 0,
                                                              'is_neq': v != 0}[n]), s) for v, s in E.ev(e['args'][0], st, fr)]

        def diff(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            if len(ops) != 2:
                return None
            T = fr.fn.ty(ops[0]) or {}
            U = fr.fn.ty(ops[1]) or {}
            if 'iterator' not in (T.get('rec') or '').lower() or 'iterator' not in (U.get('rec') or '').lower():
                return None
            out = []
            for a, s in self.itval(ops[0], st, fr):
                for b, s2 in self.itval(ops[1], s, fr):
                    if not (isinstance(a, tuple) and isinstance(b, tuple) and a[:1] in (('it',), ('rit',)) and b[:2] == a[:2]):
                        return None
                    d = self.pos(s2, a) - self.pos(s2, b)
                    out.append((-d if a[0] == 'rit' else d, s2))
            return out
        E.model_pred.insert(0, (lambda q, e: e.get('op') == '-' and (q.startswith('std::') or q.startswith('__gnu')), diff))

    def itval(self, e, st, fr):
        out = []
        T = fr.fn.ty(e)
        for v, s in self.E.ev(e, st, fr):
            if isinstance(v, tuple) and v and v[0] == 'lref':
                v = s.mem.get(v[1])
            out.append((v, s))
        return out

    def wipe(self, s, l):
        for i in seq(s, l):
            s = self.remove(s, l, i)
        return s

    def erase(self, l, e, s, fr, mp, assoc):
        E = self.E
        out = []
        a = e['args']
        if len(a) == 2:
            for x, s1 in self.itval(a[0], s, fr):
                for y, s2 in self.itval(a[1], s1, fr):
                    p, q = self.pos(s2, x), self.pos(s2, y)
                    for i in seq(s2, l)[p:q]:
                        s2 = self.remove(s2, l, i)
                    out.append((self.it(s2, l, p), s2))
            return out
        T = fr.fn.ty(a[0]) or {}
        if assoc and 'iterator' not in (T.get('rec') or T.get('s', '')).lower():
            for k, s1 in self.val(a[0], s, fr):
                for i, s2 in self.find(l, k, s1, mp, fr):
                    out.append((int(i is not None), s2 if i is None else self.remove(s2, l, i)))
            return out
        for v, s1 in self.itval(a[0], s, fr):
            if not (isinstance(v, tuple) and v[:1] == ('it',)):
                raise AnalysisBroken('%s: erases an unknown position' % fr.fn.loc(e))
            k = self.pos(s1, v)
            if v[1] != l or k is None or v[2] == 'end':
                self.problem('erase', 'erases a position that is not in the container', e, fr)
                continue
            s1 = self.remove(s1, l, v[2])
            out.append((self.it(s1, l, k), s1))
        return out

    def remove_matching(self, l, arg, e, s, fr, byval=False):
        out = []
        for f, s1 in (self.val(arg, s, fr) if byval else self.E.ev(arg, s, fr)):
            todo = [(list(seq(s1, l)), s1, 0)]
            while todo:
                q, x, cnt = todo.pop()
                if not q:
                    out.append((cnt, x))
                    continue
                i, q = q[0], q[1:]
                if byval:
                    tv, x = self.E.read(node(l, i), None, x)
                    res = self.eq(tv, f, x)
                else:
                    res = [(y, x3) for v, x2 in self.E.call_value(f, e, x, fr, [('ref', node(l, i))]) for y, x3 in self.E.split(v, x2)]
                for y, x3 in res:
                    todo.append((q, self.remove(x3, l, i) if y else x3, cnt + bool(y)))
        return out

    def map_at(self, l, e, s, fr):
        out = []
        for k, s1 in self.val(e['args'][0], s, fr):
            for i, s2 in self.find(l, k, s1, True, fr):
                if i is None:
                    self.E.throw('std::out_of_range', None, s2, e, fr)
                else:
                    out.append((('lref', node(l, i) + ('second',)), s2))
        return out

    def map_sub(self, l, e, s, fr):
        out = []
        for k, s1 in self.val(e['args'][0], s, fr):
            for i, s2 in self.find(l, k, s1, True, fr):
                if i is None:
                    i = newid(s2, l)
                    s2 = self.put(s2, l, len(seq(s2, l)), i)
                    s2 = self.setkey(node(l, i) + ('first',), k, s2)
                    ET = self.et(e, fr, True)
                    d = node(l, i) + ('second',)
                    if ET and ET['same'] in ALL:
                        s2 = make(s2, d)
                    elif ET and (ET['same'] or '').split('<')[0] in ('std::unique_ptr', 'std::shared_ptr') or ET and ET['same'] is None:
                        s2 = s2.set(d, ('null',))
                    else:
                        s2 = s2.set(d, 0)
                out.append((('lref', node(l, i) + ('second',)), s2))
        return out

    def setkey(self, loc, k, s):
        if self.isobj(k):
            return self.E.copy_obj(k[1], loc, s)
        return s.set(loc, k)

    def insert_assoc(self, l, e, s, fr, n, mp):
        E = self.E
        args = list(e['args'])
        hint = n == 'emplace_hint'
        out = []
        if n == 'insert' and len(args) == 2:
            T0 = fr.fn.ty(args[0]) or {}
            if 'iterator' in (T0.get('rec') or T0.get('s', '')).lower():
                T1 = fr.fn.ty(args[1]) or {}
                if 'iterator' in (T1.get('rec') or T1.get('s', '')).lower():
                    return self.insert_range(l, e, s, fr, mp, args)
                hint = True
        if hint:
            s = E.ev_list_states(args[:1], s, fr)[0]
            args = args[1:]
        i = newid(s, l)
        tmp = l + (('tmp', 'ins'),)
        states = []
        if mp and len(args) == 1:
            T = dict(fr.fn.ty(args[0]) or {})
            T.pop('ref', None)
            states = E.init_loc(tmp, T, args[0], s, fr)
        elif mp:
            T = dict(fr.fn.ty(args[0]) or {})
            T.pop('ref', None)
            m = E.models.get('ctor:%s' % T.get('rec')) if not T.get('ptr') and args[0].get('k') != 'construct' else None
            r = m(E, dict(args[0], args=args[:1]), tmp + ('first',), s, fr) if m else None
            for s1 in [x for _, x in r] if r else E.init_loc(tmp + ('first',), T, args[0], s, fr):
                # the value is only moved from when the key is new
                for d, s2 in self.find(l, s1.mem.get(tmp + ('first',)), s1, True, fr):
                    if d is not None and n == 'insert_or_assign':
                        raise AnalysisBroken('%s: insert_or_assign is not modelled' % fr.fn.loc(e))
                    if d is not None:
                        s2 = E.kill_prefix(tmp, s2)
                        out.append(self.insres(l, d, 0, s2, hint, e, fr))
                        continue
                    if len(args) == 2:
                        T = dict(fr.fn.ty(args[1]) or {})
                        T.pop('ref', None)
                        ET = self.et(e, fr, True)
                        states += self.elem_init(tmp + ('second',), args[1:], s2, fr, e, ET)
                    else:
                        ET = self.et(e, fr, True)
                        states += self.elem_init(tmp + ('second',), args[1:], s2, fr, e, ET)
        else:
            states = self.elem_init(tmp, args, s, fr, e, self.et(e, fr))
        for s1 in states:
            k = s1.mem.get(tmp + ('first',) if mp else tmp)
            for d, s2 in self.find(l, k, s1, mp, fr):
                if d is None:
                    s2 = E.copy_obj(tmp, node(l, i), s2)
                    s2 = E.kill_prefix(tmp, s2)
                    s2 = E.kill_prefix(node(l, i) + ('__o',), s2)
                    s2 = self.put(s2, l, len(seq(s2, l)), i)
                    out.append(self.insres(l, i, 1, s2, hint, e, fr))
                else:
                    s2 = E.kill_prefix(tmp, s2)
                    out.append(self.insres(l, d, 0, s2, hint, e, fr))
        return out

    def insert_range(self, l, e, s, fr, mp, args):
        E = self.E
        out = []
        for x, s1 in self.itval(args[0], s, fr):
            for y, s2 in self.itval(args[1], s1, fr):
                p, q = self.pos(s2, x), self.pos(s2, y)
                states = [s2]
                for j in seq(s2, x[1])[p:q]:
                    ns = []
                    for s3 in states:
                        src = node(x[1], j)
                        k = s3.mem.get(src + ('first',) if mp else src)
                        for d, s4 in self.find(l, k, s3, mp, fr):
                            if d is None:
                                i = newid(s4, l)
                                s4 = E.copy_obj(src, node(l, i), s4)
                                s4 = E.kill_prefix(node(l, i) + ('__o',), s4)
                                s4 = self.put(s4, l, len(seq(s4, l)), i)
                            ns.append(s4)
                    states = ns
                out += [(VOID, z) for z in states]
        return out

    def insres(self, l, i, new, s, hint, e, fr):
        it = ('it', l, i)
        if hint:
            return it, s
        loc = ('t', fr.depth, self.E.site(e, fr))
        s = self.E.kill_prefix(loc, s)
        return ('obj', loc), s.set(loc + ('first',), it).set(loc + ('second',), new)

    def insert_seq(self, l, e, s, fr, n):
        E = self.E
        args = list(e['args'])
        at = {'push_back': None, 'emplace_back': None, 'push_front': 0, 'emplace_front': 0}.get(n, 'pos')
        starts = [(at, s)]
        if at == 'pos':
            starts = []
            for v, s1 in self.itval(args[0], s, fr):
                starts.append((self.pos(s1, v), s1))
            args = args[1:]
            if len(args) == 2:
                T1 = fr.fn.ty(args[0]) or {}
                if n == 'insert' and 'iterator' in (T1.get('rec') or T1.get('s', '')).lower():
                    out = []
                    for k, s1 in starts:
                        for x, s2 in self.itval(args[0], s1, fr):
                            for y, s3 in self.itval(args[1], s2, fr):
                                p, q = self.pos(s3, x), self.pos(s3, y)
                                for m, j in enumerate(seq(s3, x[1])[p:q]):
                                    i = newid(s3, l)
                                    s3 = E.copy_obj(node(x[1], j), node(l, i), s3)
                                    s3 = E.kill_prefix(node(l, i) + ('__o',), s3)
                                    s3 = self.put(s3, l, k + m, i)
                                out.append((self.it(s3, l, k), s3))
                    return out
        out = []
        for k, s1 in starts:
            i = newid(s1, l)
            tmp = l + (('tmp', 'ins'),)
            for s2 in self.elem_init(tmp, args, s1, fr, e, self.et(e, fr)):
                s2 = E.copy_obj(tmp, node(l, i), s2)
                s2 = E.kill_prefix(node(l, i) + ('__o',), E.kill_prefix(tmp, s2))
                s2 = self.put(s2, l, len(seq(s2, l)) if k is None else k, i)
                out.append((('lref', node(l, i)) if at != 'pos' and n.startswith('emplace') else VOID if at != 'pos' else ('it', l, i), s2))
        return out

    def endel(self, l, e, s, fr, i):
        ids = seq(s, l)
        if not ids:
            self.problem('empty', 'accesses an element of an empty container', e, fr)
            return []
        return [(('lref', node(l, ids[i])), s)]

    def drop(self, l, e, s, fr, i):
        ids = seq(s, l)
        if not ids:
            self.problem('empty', 'removes an element of an empty container', e, fr)
            return []
        return [(VOID, self.remove(s, l, ids[i]))]

    def sub(self, l, e, s, fr, checked):
        out = []
        for v, s1 in self.E.ev(e['args'][0], s, fr):
            for k, s2 in self.E.concretise(v, s1):
                ids = seq(s2, l)
                if not isinstance(k, int):
                    raise AnalysisBroken('%s: unknown index into a known container' % fr.fn.loc(e))
                if 0 <= k < len(ids):
                    out.append((('lref', node(l, ids[k])), s2))
                elif checked:
                    self.E.throw('std::out_of_range', None, s2, e, fr)
                else:
                    self.problem('index', 'accesses a container out of its bounds', e, fr)
        return out

    def star(self, E, e, st, fr):
        out = []
        ops = [e['obj']] if e.get('obj') is not None else e['args'][:1]
        for v, s in self.itval(ops[0], st, fr):
            t = self.target(s, v, e, fr)
            if t is None:
                return None
            if t:
                out.append((('lref', t), s))
        return out

    def arrow(self, e, st, fr):
        r = self.star(self.E, e, st, fr)
        return None if r is None else [(('p', v[1]), s) for v, s in r]

    def itsub(self, e, st, fr):
        out = []
        for v, s in self.itval(e['obj'], st, fr):
            for d, s2 in self.E.ev(e['args'][0], s, fr):
                if not isinstance(d, int):
                    return None
                t = self.target(s2, self.step(s2, v, d, e, fr), e, fr)
                if t:
                    out.append((('lref', t), s2))
        return out

    def bump(self, e, st, fr, d):
        out = []
        for l, s in self.E.lv(e['obj'], st, fr):
            v = s.mem.get(l)
            if not (isinstance(v, tuple) and v[:1] in (('it',), ('rit',))):
                return None
            n = self.step(s, v, d, e, fr)
            out.append((v if e['args'] else ('lref', l), s.set(l, n)))
        return out

    def arith(self, e, st, fr, d, n):
        out = []
        asg = n.endswith('=')
        for x, s2 in self.E.ev(e['args'][0], st, fr):
            if not isinstance(x, int):
                return None
            if asg:
                for l, s in self.E.lv(e['obj'], s2, fr):
                    v = s.mem.get(l)
                    out.append((('lref', l), s.set(l, self.step(s, v, d * x, e, fr))))
            else:
                for v, s in self.itval(e['obj'], s2, fr):
                    out.append((self.step(s, v, d * x, e, fr), s))
        return out

    def nextprev(self, e, st, fr, d):
        out = []
        for v, s in self.itval(e['args'][0], st, fr):
            if not (isinstance(v, tuple) and v[:1] in (('it',), ('rit',))):
                return None
            n = 1
            if len(e['args']) > 1:
                r = self.E.ev(e['args'][1], s, fr)
                n, s = r[0]
                if not isinstance(n, int):
                    return None
            out.append((self.step(s, v, d * n, e, fr), s))
        return out

    def distance(self, e, st, fr):
        out = []
        for a, s in self.itval(e['args'][0], st, fr):
            for b, s2 in self.itval(e['args'][1], s, fr):
                if not (isinstance(a, tuple) and a[:1] in (('it',), ('rit',))):
                    return None
                d = self.pos(s2, b) - self.pos(s2, a)
                out.append((-d if a[0] == 'rit' else d, s2))
        return out

    def advance(self, e, st, fr):
        out = []
        for l, s in self.E.lv(e['args'][0], st, fr):
            for n, s2 in self.E.ev(e['args'][1], s, fr):
                v = s2.mem.get(l)
                if not (isinstance(v, tuple) and v[:1] in (('it',), ('rit',)) and isinstance(n, int)):
                    return None
                out.append((VOID, s2.set(l, self.step(s2, v, n, e, fr))))
        return out

    def free(self, e, st, fr, n):
        if len(e['args']) != 1:
            return None
        out = []
        for l, s in self.E.lv(e['args'][0], st, fr):
            q = seq(s, l)
            if q is None:
                return None
            v = {'begin': self.it(s, l, 0), 'cbegin': self.it(s, l, 0), 'end': ('it', l, 'end'), 'cend': ('it', l, 'end'),
                 'size': len(q), 'ssize': len(q), 'empty': int(not q)}[n]
            out.append((v, s))
        return out

    def obj_eq(self, a, b, cls, st, e, fr):
        """Compares two objects with the operator== of their class: [(bool, st)]"""
        E = self.E
        for fn in E.P.by_q.get((cls or '') + '::operator==', []):
            if len(fn.params) == 1 and fn.body is not None and not fn.static:
                pt = fn.types[fn.params[0]['t']]
                out = []
                for v, s in E.call_fn(fn, [('ref', b) if pt.get('ref') else ('val', ('obj', b))], a, st, e, fr):
                    out += [(bool(y), s2) for y, s2 in E.split(v, s)]
                return out
        return None

    def algo_user(self, e, st, fr, n):
        """The algorithms over iterators of a class of the repository: by the class's own operators."""
        E = self.E
        if n not in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if', 'for_each') or len(e['args']) != 3 or not e.get('ta'):
            return None
        ops = {}
        cls = (fr.fn.ty(e['args'][0]) or {}).get('rec')
        for o in ('++', '*', '!=', '=='):
            fs = [f for f in E.P.by_q.get('%s::operator%s' % (cls, o), []) if f.raw.get('clst') == e['ta'][0] and len(f.params) == (1 if '=' in o else 0) and f.body is not None]
            if fs:
                ops[o] = fs[0]
        if '++' not in ops or '*' not in ops or not ('!=' in ops or '==' in ops):
            return None
        site = E.site(e, fr)
        A, B, X = (('t', fr.depth, site, k) for k in ('first', 'last', 'pos'))
        T = fr.fn.ty(e['args'][0])
        out = []
        for s in E.init_loc(A, T, e['args'][0], E.kill_prefix(A, st), fr):
            for s1 in E.init_loc(B, T, e['args'][1], E.kill_prefix(B, s), fr):
                for f, s2 in E.ev(e['args'][2], s1, fr):
                    todo = [(s2, 0, 0)]
                    while todo:
                        x, cnt, k = todo.pop()
                        if k > 40:
                            raise AnalysisBroken('%s: an algorithm does not end' % fr.fn.loc(e))
                        eq = ops.get('==') or ops['!=']
                        pt = eq.types[eq.params[0]['t']]
                        for v, x1 in E.call_fn(eq, [('ref', B) if pt.get('ref') else ('val', ('obj', B))], A, x, e, fr):
                            for y, x2 in E.split(v, x1):
                                if bool(y) == ('==' in ops):
                                    if n in ('find_if', 'find_if_not'):
                                        out.append((('obj', A), x2))
                                    else:
                                        out.append(({'any_of': 0, 'all_of': 1, 'none_of': 1, 'count_if': cnt, 'for_each': VOID}[n], x2))
                                    continue
                                for d, x3 in E.call_fn(ops['*'], [], A, x2, e, fr):
                                    if not (isinstance(d, tuple) and d[0] in ('lref', 'obj')):
                                        return None
                                    for v2, x4 in E.call_value(f, e, x3, fr, [('ref', d[1])]):
                                        for z, x5 in ([(1, x4)] if n == 'for_each' else E.split(v2, x4)):
                                            if n == 'find_if' and z or n == 'find_if_not' and not z:
                                                out.append((('obj', A), x5))
                                            elif n == 'any_of' and z or n == 'all_of' and not z or n == 'none_of' and z:
                                                out.append((int(n == 'any_of'), x5))
                                            else:
                                                todo += [(x6, cnt + (n == 'count_if' and bool(z)), k + 1) for _, x6 in E.call_fn(ops['++'], [], A, x5, e, fr)]
        return out

    def bitval(self, E, e, st, fr):
        """An element of a vector<bool>."""
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            if not isinstance(l, tuple):
                return None
            v, s = E.read(l, None, s)
            out.append((v, s))
        return out

    def bitset(self, E, e, st, fr):
        out = []
        for v, s in self.val(e['args'][0], st, fr):
            if isinstance(v, tuple) and v[:1] in (('lref',), ('obj',)):
                v, s = E.read(v[1], None, s)
            for l, s2 in E.lv(e['obj'], s, fr):
                if not isinstance(l, tuple):
                    return None
                out.append((('lref', l), s2.set(l, v)))
        return out

    def iota(self, E, e, st, fr):
        out = []
        for a, s in self.itval(e['args'][0], st, fr):
            for b, s in self.itval(e['args'][1], s, fr):
                for v, s in E.ev(e['args'][2], s, fr):
                    if not (isinstance(a, tuple) and a[:1] == ('it',) and isinstance(b, tuple) and b[:2] == a[:2] and isinstance(v, int)):
                        return None
                    for k, i in enumerate(seq(s, a[1])[self.pos(s, a):self.pos(s, b)]):
                        s = s.set(node(a[1], i), v + k)
                    out.append((VOID, s))
        return out

    def algo(self, e, st, fr, n):
        r = self.algo_user(e, st, fr, n)
        if r is not None:
            return r
        E = self.E
        out = []
        for a, s in self.itval(e['args'][0], st, fr):
            for b, s1 in self.itval(e['args'][1], s, fr):
                if not (isinstance(a, tuple) and a[:1] in (('it',), ('rit',)) and isinstance(b, tuple) and b[:2] == a[:2]):
                    return None
                for f, s2 in (self.val(e['args'][2], s1, fr) if n in ('find', 'count') else E.ev(e['args'][2], s1, fr)):
                    todo = [(a, s2, 0)]
                    while todo:
                        i, x, cnt = todo.pop()
                        if i == b:
                            out.append(({'find_if': i, 'find_if_not': i, 'find': i, 'any_of': 0, 'all_of': 1, 'none_of': 1, 'count_if': cnt,
                                         'count': cnt, 'for_each': VOID}[n], x))
                            continue
                        t = self.target(x, i, e, fr)
                        if not t:
                            continue
                        if n in ('find', 'count'):
                            if self.isobj(f):
                                res = self.obj_eq(t, f[1], (fr.fn.ty(e['args'][2]) or {}).get('rec'), x, e, fr)
                                if res is None:
                                    return None
                            else:
                                tv, x = E.read(t, None, x)
                                res = self.eq(tv, f, x)
                        else:
                            res = []
                            for v, x2 in E.call_value(f, e, x, fr, [('ref', t)]):
                                res += [(1, x2)] if n == 'for_each' else [(bool(y), x3) for y, x3 in E.split(v, x2)]
                        for y, x3 in res:
                            if n in ('find_if', 'find') and y or n == 'find_if_not' and not y:
                                out.append((i, x3))
                            elif n == 'any_of' and y or n == 'all_of' and not y or n == 'none_of' and y:
                                out.append((int(n == 'any_of'), x3))
                            else:
                                todo.append((self.step(x3, i, 1, e, fr), x3, cnt + (n in ('count_if', 'count') and bool(y))))
        return out


# ------------------------------------------------------------------------------------------------------ virtual calls
def rec_of(P, cls):
    return P.recs_by_s.get(cls) or P.recs.get(strip_targs(cls))


def bases(P, cls):
    """Direct base classes: plain names, with template arguments where the class itself is named with them."""
    r = rec_of(P, cls)
    if not r:
        return []
    return [r['types'][b]['s'] if '<' in r['types'][b]['s'] else r['types'][b]['rec'] for b in r['bases'] if r['types'][b].get('rec')]


def final_overrider(P, key, cls):
    """The function that a virtual call of `key` on an object of dynamic class `cls` runs (None: unknown)."""
    memo = P.__dict__.setdefault('_fo', {})
    if (key, cls) in memo:
        return memo[key, cls]
    fam, todo = set(), [key]
    while todo:
        k = todo.pop()
        if k in fam:
            continue
        fam.add(k)
        for f in P.overriders.get(k, ()):
            todo.append(f.key)
    byc, byt = {}, {}
    for k in fam:
        f = P.funcs.get(k)
        if f is not None:
            byc.setdefault(f.cls, f)
            byt.setdefault(f.clst, f)
    level = [cls]
    seen = set()
    res = None
    while level and res is None:
        nxt = []
        for c in level:
            f = byt.get(c) or (byc.get(c) if '<' not in c else None)
            if f is not None:
                res = f
                break
            if c not in seen:
                seen.add(c)
                nxt += bases(P, c)
        level = nxt
    memo[key, cls] = res
    return res


def by_class(P, E):
    """Virtual calls on objects that carry their class in '__cls'."""
    def virt(e, st, fr):
        if e.get('obj') is None:
            return None
        out = []
        for l, s in E.obj_loc(e, st, fr):
            c = s.mem.get(l + ('__cls',))
            if not c:
                return None
            f = final_overrider(P, e['fn'], c[1])
            if f is None or f.body is None:
                return None
            if f not in out:
                out.append(f)
        return out
    E.virt_hook = virt

    def dyn(E, e, st, fr):
        T = fr.fn.ty(e) or {}
        target = T.get('rec') or (T.get('pt') or {}).get('rec')
        s0 = (T.get('canon') or T.get('s') or '').replace('const ', '').replace('volatile ', '').rstrip('*& ')
        for x in ('struct ', 'class '):
            s0 = s0.replace(x, '')
        target = target or strip_targs(s0)
        out = []
        for v, s in E.ev(e['e'], st, fr):
            v = E.simplify(v, s)
            if isinstance(v, tuple) and v[:1] == ('p',):
                c = s.mem.get(v[1] + ('__cls',))
                if c:
                    out.append((v if derives(P, c[1], target) else ('null',), s))
                    continue
            elif v == ('null',) or v == 0:
                out.append((('null',), s))
                continue
            w, s = E.fresh(s, ('dyn', E.site(e, fr)))
            out.append((w, s))
        return out
    if 'dynamic_cast' not in E.models:
        E.models['dynamic_cast'] = dyn


def derives(P, c, target):
    return strip_targs(c) == target or any(derives(P, b, target) for b in bases(P, c))
