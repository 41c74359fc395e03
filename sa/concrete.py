"""Precise models of std::vector, its iterators, std::string and related helpers for states in which their size is known.

A vector at location L keeps its size at L+('__n',) and its elements at L+(('i', k),).  Iterators are pointers
('p', L+(('i', k),)).  When the size is unknown the models answer None and the generic (opaque) treatment applies."""
from .engine import NULL, VOID, UNINIT


def obj(E, e, st, fr):
    return E.obj_loc(e, st, fr)


def elem_type(T):
    return None


def load_any(E, l, T, s, fr):
    return E.load(l, T, s, fr)


def install(E, seqs=('std::vector', 'std::deque', 'std::__cxx11::basic_string', 'std::basic_string')):
    M = E.models
    for q in ('std::vector', 'std::deque'):
        E.obj_std.add(q)
    E.MAX_ELEMS = 64

    def size_of(l, s):
        n = s.mem.get(l + ('__n',))
        return n

    def reg(names, h):
        for q in seqs:
            for n in names:
                prev = M.get(q + '::' + n)

                def hh(E, e, st, fr, prev=prev, h=h):
                    r = h(E, e, st, fr)
                    if r is None and prev is not None:
                        return prev(E, e, st, fr)
                    return r
                M[q + '::' + n] = hh

    def known(E, e, st, fr):
        ls = obj(E, e, st, fr)
        if not ls:
            return []
        if any(not isinstance(size_of(l, s), int) for l, s in ls):
            return None
        return ls

    def size(E, e, st, fr):
        ls = obj(E, e, st, fr)
        out = []
        for l, s in ls:
            n = size_of(l, s)
            if n is None:
                n, s = E.read(l + ('__n',), None, s)
            out.append((n, s))
        return out
    reg(['size', 'length'], size)

    def empty(E, e, st, fr):
        return [(E.fold('==', (n, 0)), s) for n, s in size(E, e, st, fr)]
    reg(['empty'], empty)

    def at(E, e, st, fr):
        out = []
        for l, s in obj(E, e, st, fr):
            for i, s2 in E.ev(e['args'][0], s, fr):
                for i2, s3 in (E.concretise(i, s2) if isinstance(s2.mem.get(l + ('__n',)), int) else [(i, s2)]):
                    i2 = E.simplify(i2, s3)
                    n = s3.mem.get(l + ('__n',))
                    if isinstance(n, int) and isinstance(i2, int) and not 0 <= i2 < n:
                        if e.get('n') == 'at':
                            E.throw('std::out_of_range', None, s3, e, fr)
                            continue
                        if E.oob_hook:
                            E.oob_hook(e, s3, fr, i2, n)
                            continue
                    out.append((('lref', l + (('i', i2),)), s3))
        return out
    reg(['operator[]', 'at'], at)

    def back(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        out = []
        for l, s in ls:
            n = size_of(l, s)
            if n == 0:
                if E.oob_hook:
                    E.oob_hook(e, s, fr, -1, 0)
                continue
            out.append((('lref', l + (('i', n - 1),)), s))
        return out
    reg(['back'], back)

    def front(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        out = []
        for l, s in ls:
            if size_of(l, s) == 0:
                if E.oob_hook:
                    E.oob_hook(e, s, fr, 0, 0)
                continue
            out.append((('lref', l + (('i', 0),)), s))
        return out
    reg(['front'], front)

    def begin(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        return [(('p', l + (('i', 0),)), s) for l, s in ls]
    reg(['begin', 'cbegin', 'data', 'c_str'], begin)

    def end(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        return [(('p', l + (('i', size_of(l, s)),)), s) for l, s in ls]
    reg(['end', 'cend'], end)

    def rbegin(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        return [(('rit', l, size_of(l, s)), s) for l, s in ls]
    reg(['rbegin', 'crbegin'], rbegin)

    def rend(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        return [(('rit', l, 0), s) for l, s in ls]
    reg(['rend', 'crend'], rend)

    def put(E, l, T, a, s, fr):
        """Initialises location l from argument expression a."""
        AT = dict(fr.fn.ty(a) or {})
        AT.pop('ref', None)
        return E.init_loc(l, AT, a, s, fr)

    def push_back(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        out = []
        for l, s in ls:
            n = size_of(l, s)
            if n >= E.MAX_ELEMS:
                from .engine import Limit
                raise Limit('container grows without bound at ' + fr.fn.loc(e))
            if len(e['args']) == 1:
                rs = put(E, l + (('i', n),), None, e['args'][0], s, fr)
            elif not e['args']:
                rs = [E.kill_prefix(l + (('i', n),), s)]
            else:
                rs = emplace_args(E, e, l + (('i', n),), s, fr)
                if rs is None:
                    return None
            for s2 in rs:
                if e.get('n') == 'emplace_back':
                    out.append((('lref', l + (('i', n),)), s2.set(l + ('__n',), n + 1)))
                else:
                    out.append((VOID, s2.set(l + ('__n',), n + 1)))
        return out
    reg(['push_back', 'emplace_back'], push_back)

    def emplace_args(E, e, loc, s, fr):
        h = getattr(E, 'emplace_model', None)
        if h:
            return h(e, loc, s, fr)
        return None

    def pop_back(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        out = []
        for l, s in ls:
            n = size_of(l, s)
            if n == 0:
                if E.oob_hook:
                    E.oob_hook(e, s, fr, -1, 0)
                continue
            s = E.kill_prefix(l + (('i', n - 1),), s)
            out.append((VOID, s.set(l + ('__n',), n - 1)))
        return out
    reg(['pop_back'], pop_back)

    def clear(E, e, st, fr):
        ls = known(E, e, st, fr)
        if ls is None:
            return None
        out = []
        for l, s in ls:
            s = E.kill_prefix(l, s)
            out.append((VOID, s.set(l + ('__n',), 0)))
        return out
    reg(['clear'], clear)

    def noop(E, e, st, fr):
        return [(VOID, s) for s in E.ev_list_states(e.get('args', []), st, fr)]
    reg(['reserve', 'shrink_to_fit'], noop)

    def ctor(E, e, loc, st, fr):
        args = [a for a in e['args'] if a['k'] != 'dfltarg']
        if not args or e.get('dflt'):
            s = E.kill_prefix(loc, st)
            return [(VOID, s.set(loc + ('__n',), 0))]
        a = args[0]
        T = fr.fn.ty(a) or {}
        if e.get('cm'):
            out = []
            for l, s in E.lv(a, st, fr):
                s2 = E.copy_obj(l, loc, s)
                if a['k'] == 'call' and a.get('q') == 'std::move' or a.get('xv'):
                    if isinstance(s.mem.get(l + ('__n',)), int):
                        s2 = E.kill_prefix(l, s2).set(l + ('__n',), 0)
                out.append((VOID, s2))
            return out
        if T.get('rec') == 'std::initializer_list' or a['k'] == 'ilist' or (a['k'] == 'cast' and a['e']['k'] == 'ilist'):
            il = a
            while il['k'] in ('cast', 'stdil') and 'e' in il:
                il = il['e']
            if il['k'] == 'ilist':
                states = [E.kill_prefix(loc, st)]
                for i, x in enumerate(il['es']):
                    ns = []
                    for s in states:
                        ns += put(E, loc + (('i', i),), None, x, s, fr)
                    states = ns
                return [(VOID, s.set(loc + ('__n',), len(il['es']))) for s in states]
        out = []
        for s in E.ev_list_states(args, st, fr):
            s = E.havoc(loc, s, None, ('ctor', E.site(e, fr)))
            out.append((VOID, s))
        return out
    M['ctor:std::vector'] = ctor

    def assign(E, e, st, fr):
        out = []
        for l2, s in E.lv(e['args'][0], st, fr):
            for l, s2 in obj(E, e, s, fr):
                a = e['args'][0]
                s3 = E.copy_obj(l2, l, s2)
                if l2 != l and (a['k'] == 'call' and a.get('q') == 'std::move' or a.get('xv')) and isinstance(s2.mem.get(l2 + ('__n',)), int):
                    s3 = E.kill_prefix(l2, s3).set(l2 + ('__n',), 0)
                out.append((('lref', l), s3))
        return out
    M['std::vector::operator='] = assign

    # ---- iterators
    NI = '__gnu_cxx::__normal_iterator'

    def isit(v):
        return isinstance(v, tuple) and v and (v[0] == 'rit' or v[0] == 'p' and v[1] and isinstance(v[1][-1], tuple) and v[1][-1][0] == 'i' and isinstance(v[1][-1][1], int))

    def adv(v, d):
        if v[0] == 'rit':
            return ('rit', v[1], v[2] - d)
        return ('p', v[1][:-1] + (('i', v[1][-1][1] + d),))

    def it_incdec(E, e, st, fr, d):
        out = []
        for l, s in E.lv(e['obj'], st, fr):
            v = s.mem.get(l)
            if v is None or not isit(v):
                return None
            nv = adv(v, d)
            s2 = E.write(l, nv, s, e, fr)
            out.append((v, s2) if e['args'] else (('lref', l), s2))
        return out

    RI = 'std::reverse_iterator'
    for C in (NI, RI):
        M[C + '::operator++'] = lambda E, e, st, fr: it_incdec(E, e, st, fr, 1)
        M[C + '::operator--'] = lambda E, e, st, fr: it_incdec(E, e, st, fr, -1)

    def it_val(E, e, st, fr):
        """Value of the iterator the call is made on; None when unknown."""
        o = e['obj']
        out = []
        for v, s in E.ev(o, st, fr):
            if isinstance(v, tuple) and v and v[0] == 'lref':
                v = s.mem.get(v[1])
            v = E.simplify(v, s)
            if not isit(v):
                return None
            out.append((v, s))
        return out

    def elem(v):
        if v[0] == 'rit':
            return v[1] + (('i', v[2] - 1),)
        return v[1]

    def it_deref(E, e, st, fr):
        r = it_val(E, e, st, fr)
        if r is None:
            return None
        out = []
        for v, s in r:
            l = elem(v)
            n = s.mem.get(l[:-1] + ('__n',))
            if isinstance(n, int) and not 0 <= l[-1][1] < n:
                if E.oob_hook:
                    E.oob_hook(e, s, fr, l[-1][1], n)
                continue
            out.append((('lref', l) if e.get('op') == '*' else ('p', l), s))
        return out
    def it_assign(E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            if isinstance(v, tuple) and v and v[0] in ('lref', 'obj'):
                v = s.mem.get(v[1])
            if v is None or not isit(v):
                return None
            for l, s2 in E.lv(e['obj'], s, fr):
                out.append((('lref', l), E.write(l, v, s2, e, fr)))
        return out

    for C in (NI, RI):
        M[C + '::operator*'] = it_deref
        M[C + '::operator->'] = it_deref
        M[C + '::operator='] = it_assign

    def it_off(sign):
        def h(E, e, st, fr):
            r = it_val(E, e, st, fr)
            if r is None:
                return None
            out = []
            for v, s in r:
                for d, s2 in E.ev(e['args'][0], s, fr):
                    d = E.simplify(d, s2)
                    if isit(d) and sign < 0:
                        if d[0] == v[0] == 'p' and d[1][:-1] == v[1][:-1]:
                            out.append((v[1][-1][1] - d[1][-1][1], s2))
                            continue
                        return None
                    if not isinstance(d, int):
                        return None
                    out.append((adv(v, sign * d), s2))
            return out
        return h
    for C in (NI, RI):
        M[C + '::operator+'] = it_off(1)
        M[C + '::operator-'] = it_off(-1)

    def it_cmp(op):
        def h(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            if len(ops) != 2:
                return None
            T = fr.fn.ty(ops[0]) or {}
            out = []
            for a, s in E.ev(ops[0], st, fr):
                for b, s2 in E.ev(ops[1], s, fr):
                    vs = []
                    for x in (a, b):
                        if isinstance(x, tuple) and x and x[0] in ('lref', 'obj'):
                            x = s2.mem.get(x[1])
                        vs.append(E.simplify(x, s2))
                    if not (isit(vs[0]) and isit(vs[1])):
                        return None
                    ka = (vs[0][1][:-1], vs[0][1][-1][1]) if vs[0][0] == 'p' else (vs[0][1], -vs[0][2])
                    kb = (vs[1][1][:-1], vs[1][1][-1][1]) if vs[1][0] == 'p' else (vs[1][1], -vs[1][2])
                    if op == '==':
                        out.append((int(ka == kb), s2))
                    elif op == '!=':
                        out.append((int(ka != kb), s2))
                    elif op == '-':
                        out.append((ka[1] - kb[1], s2))
                    else:
                        out.append((int({'<': ka[1] < kb[1], '>': ka[1] > kb[1], '<=': ka[1] <= kb[1], '>=': ka[1] >= kb[1]}[op]), s2))
            return out
        return h
    for op in ('==', '!=', '<', '>', '<=', '>=', '-'):
        M['__gnu_cxx::operator' + op] = it_cmp(op)
    for op in ('==', '!='):
        prev = M.get('std::operator' + op)

        def both(E, e, st, fr, op=op, prev=prev):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            T = fr.fn.ty(ops[0]) or {}
            if T.get('rec') == RI:
                r = it_cmp(op)(E, e, st, fr)
                if r is not None:
                    return r
            return prev(E, e, st, fr) if prev else None
        M['std::operator' + op] = both

    def distance(E, e, st, fr):
        out = []
        for a, s in E.ev(e['args'][0], st, fr):
            for b, s2 in E.ev(e['args'][1], s, fr):
                a2, b2 = E.simplify(a, s2), E.simplify(b, s2)
                if not (isit(a2) and isit(b2) and a2[0] == b2[0] == 'p'):
                    return None
                out.append((b2[1][-1][1] - a2[1][-1][1], s2))
        return out
    M['std::distance'] = distance

    def step(d0):
        def h(E, e, st, fr):
            out = []
            for a, s in E.ev(e['args'][0], st, fr):
                for d, s2 in (E.ev(e['args'][1], s, fr) if len(e['args']) > 1 and e['args'][1]['k'] != 'dfltarg' else [(1, s)]):
                    a2, d = E.simplify(a, s2), E.simplify(d, s2)
                    if not isit(a2) or not isinstance(d, int):
                        return None
                    out.append((adv(a2, d0 * d), s2))
            return out
        return h
    M['std::next'] = step(1)
    M['std::prev'] = step(-1)

    # ---- std::string with known contents is ('str', text)
    S = 'std::__cxx11::basic_string'
    S2 = 'std::basic_string'

    def sv(E, a, st, fr):
        out = []
        for v, s in E.ev_ptr(a, st, fr):
            if isinstance(v, tuple) and v and v[0] == 'lref':
                v = s.mem.get(v[1], v)
            v = E.simplify(v, s)
            out.append((v, s))
        return out

    def s_ctor(E, e, st, fr):
        args = [a for a in e['args'] if a['k'] != 'dfltarg' and (fr.fn.ty(a) or {}).get('rec') != 'std::allocator']
        if not args:
            return [(('str', ''), st)]
        r = sv(E, args[0], st, fr)
        if len(args) == 1 and all(isinstance(v, tuple) and v and v[0] == 'str' for v, s in r):
            return r
        return None

    prevs = M.get('ctorval:' + S)
    for q in (S, S2):
        def h(E, e, st, fr):
            r = s_ctor(E, e, st, fr)
            if r is not None:
                return r
            if e.get('cm') and len(e['args']) == 1:
                return E.ev(e['args'][0], st, fr)
            out = []
            for s in E.ev_list_states(e['args'], st, fr):
                v, s = E.fresh(s, ('ctor', E.site(e, fr)))
                out.append((v, s))
            return out
        M['ctorval:' + q] = h

    def s_plus(E, e, st, fr):
        if len(e['args']) != 2:
            return None
        out = []
        for a, s in sv(E, e['args'][0], st, fr):
            for b, s2 in sv(E, e['args'][1], s, fr):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('str',) and b[:1] == ('str',):
                    out.append((('str', a[1] + b[1]), s2))
                else:
                    return None
        return out
    prevp = M.get('std::operator+')
    M['std::operator+'] = lambda E, e, st, fr: s_plus(E, e, st, fr) or (prevp(E, e, st, fr) if prevp else None)

    def s_append(E, e, st, fr):
        out = []
        for a, s in sv(E, e['args'][0], st, fr):
            for l, s2 in E.lv(e['obj'], s, fr):
                o = s2.mem.get(l)
                if not (isinstance(o, tuple) and o[:1] == ('str',) and isinstance(a, tuple) and a[:1] == ('str',)):
                    return None
                out.append((('lref', l), E.write(l, ('str', o[1] + a[1]), s2, e, fr)))
        return out

    def s_assign(E, e, st, fr):
        out = []
        for a, s in sv(E, e['args'][0], st, fr):
            if not (isinstance(a, tuple) and a[:1] == ('str',)):
                return None
            for l, s2 in E.lv(e['obj'], s, fr):
                out.append((('lref', l), E.write(l, a, s2, e, fr)))
        return out
    for q in (S, S2):
        M[q + '::operator+='] = s_append
        M[q + '::append'] = s_append
        M[q + '::operator='] = s_assign

    def s_eq(neg):
        prev = M.get('std::operator' + ('!=' if neg else '=='))

        def h(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            if len(ops) == 2:
                T0, T1 = fr.fn.ty(ops[0]) or {}, fr.fn.ty(ops[1]) or {}
                if T0.get('rec') in (S, S2) or T1.get('rec') in (S, S2):
                    out = []
                    for a, s in sv(E, ops[0], st, fr):
                        for b, s2 in sv(E, ops[1], s, fr):
                            v = E.fold('==', (a, b))
                            out.append((E.fold('!', (v,)) if neg else v, s2))
                    return out
            return prev(E, e, st, fr) if prev else None
        return h
    M['std::operator=='] = s_eq(False)
    M['std::operator!='] = s_eq(True)

    # ---- range-based for over a vector of known size
    prev_range = E.range_hook

    def rng(n, st, fr):
        if prev_range:
            r = prev_range(n, st, fr)
            if r is not None:
                return r
        T = fr.fn.ty(n['r']) or {}
        if T.get('rec') not in ('std::vector', 'std::deque') and not getattr(E, 'range_any', False):
            return None
        out = []
        for rl, s in E.lv(n['r'], st, fr):
            k = s.mem.get(rl + ('__n',))
            if not isinstance(k, int):
                return None
            v = n['v']
            VT = fr.fn.types[v['t']]
            loc = ('v', fr.depth, v['d'])
            cur = [s]
            for i in range(k):
                ns = []
                for s1 in cur:
                    fr.env[v['d']] = loc
                    s1 = E.kill_prefix(loc, s1)
                    el = rl + (('i', i),)
                    if VT.get('ref'):
                        s1 = s1.copy()
                        s1.mem[loc + ('__ref',)] = el
                        rs = [s1]
                    elif E.is_objtype(VT):
                        rs = [E.copy_obj(el, loc, s1)]
                    else:
                        x, s1 = E.read(el, VT, s1)
                        rs = [s1.set(loc, x)]
                    for b in v.get('bind', []):
                        rs2 = []
                        for s2 in rs:
                            rs2 += E.bind(v, b, loc, VT, s2, fr)
                        rs = rs2
                    for s2 in rs:
                        if E.elem_hook:
                            s2 = E.elem_hook(n, rl, el, s2, fr)
                        for o, s3 in E.ex(n['b'], s2, fr):
                            if o is None or o[0] == 'continue':
                                ns.append(s3)
                            elif o[0] == 'break':
                                out.append((None, s3))
                            else:
                                out.append((o, s3))
                from .engine import dedupe
                cur = dedupe(ns)
            out += [(None, x) for x in cur]
        return out
    E.range_hook = rng
