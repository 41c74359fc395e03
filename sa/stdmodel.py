"""Models of standard-library and utility callees shared by all rules."""
import re

from .ir import AnalysisBroken


def strip_targs(s):
    """Class name without template arguments and qualifiers."""
    s = s.replace('const ', '').strip()
    out, d = '', 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
    return out.strip()


NULL = ('null',)
VOID = ('void',)

IDENT = {'std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::addressof_'}

SMART = ('std::unique_ptr', 'std::shared_ptr', 'm::unsharable_shared_ptr')


def smart_loc(E, e, st, fr):
    """Locations (and values) of the smart pointer a member call is made on."""
    obj = e['obj']
    if e.get('arrow'):
        out = []
        for v, s in E.ev(obj, st, fr):
            out += E.deref(v, s, e, fr)
        return out
    return E.lv(obj, st, fr)


def install(E):
    M = E.models

    def ident(E, e, st, fr):
        return [(('lref', l), s) for l, s in E.lv(e['args'][0], st, fr)]
    for q in IDENT:
        M[q] = ident

    # ---- assertions
    def insist(E, e, st, fr):
        out = []
        for b, s in E.cond(e['args'][0], st, fr):
            if b:
                out.append((VOID, s))
            elif E.insist_hook:
                E.insist_hook(e, s, fr)
        return out
    M['m::_insist'] = insist

    def noret(E, e, st, fr):
        if E.abort_hook:
            E.abort_hook(e, st, fr)
        return []
    M['m::_abort'] = noret
    M['abort'] = noret
    M['std::abort'] = noret
    M['__builtin_unreachable'] = noret
    M['std::terminate'] = noret
    M['exit'] = noret
    M['std::exit'] = noret

    def notnull(E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            for b, s2 in E.split(v, s):
                if b:
                    out.append((v, s2))
                elif E.abort_hook:
                    E.abort_hook(e, s2, fr)
        return out
    M['m::_notnull'] = notnull

    # ---- utility
    def swap(E, e, st, fr):
        out = []
        T = fr.fn.ty(e['args'][0])
        for a, s in E.lv(e['args'][0], st, fr):
            for b, s2 in E.lv(e['args'][1], s, fr):
                s3 = s2.copy()
                na, nb = len(a), len(b)
                va = {k[na:]: v for k, v in s2.mem.items() if k[:na] == a}
                vb = {k[nb:]: v for k, v in s2.mem.items() if k[:nb] == b}
                if not va:
                    va = {('__o',): E.origin(a, s2)} if E.is_objtype(T) else {(): ('s', ('init', E.origin(a, s2)))}
                if not vb:
                    vb = {('__o',): E.origin(b, s2)} if E.is_objtype(T) else {(): ('s', ('init', E.origin(b, s2)))}
                for k in va:
                    s3.mem.pop(a + k, None)
                for k in vb:
                    s3.mem.pop(b + k, None)
                for k, v in vb.items():
                    s3.mem[a + k] = v
                for k, v in va.items():
                    s3.mem[b + k] = v
                out.append((VOID, s3))
        return out
    M['std::swap'] = swap

    def exchange(E, e, st, fr):
        out = []
        T = fr.fn.ty(e['args'][0])
        for nv, s in E.ev(e['args'][1], st, fr):
            for l, s2 in E.lv(e['args'][0], s, fr):
                for old, s3 in E.load(l, T, s2, fr):
                    out.append((old, E.write(l, E.simplify(nv, s3), s3, e, fr)))
        return out
    M['std::exchange'] = exchange

    def minmax(op):
        def h(E, e, st, fr):
            if len(e['args']) != 2:
                return None
            out = []
            for a, s in E.ev(e['args'][0], st, fr):
                for b, s2 in E.ev(e['args'][1], s, fr):
                    a2, b2 = E.simplify(a, s2), E.simplify(b, s2)
                    if isinstance(a2, (int, float)) and isinstance(b2, (int, float)):
                        out.append(((min if op == 'min' else max)(a2, b2), s2))
                    else:
                        out.append((E.fold(op, (a2, b2)), s2))
            return out
        return h
    M['std::min'] = minmax('min')
    M['std::max'] = minmax('max')
    E.FUNS['min'] = min
    E.FUNS['max'] = max

    def stream(E, e, st, fr):
        """operator<< on a stream: effects of the operands, yields the stream."""
        ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
        out = []
        for l, s in E.lv(ops[0], st, fr):
            for s2 in E.ev_list_states(ops[1:], s, fr):
                out.append((('lref', l), s2))
        return out

    def is_stream(q, e):
        if e.get('op') != '<<':
            return False
        return True
    E.stream_model = stream

    def stream_h(E, e, st, fr):
        T = fr.fn.ty(e)
        if T and T.get('rec') in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream') and len(e['args']) + (e.get('obj') is not None) == 2:
            return stream(E, e, st, fr)
        return None
    E.model_pred.append((is_stream, stream_h))

    # ---- smart pointers: the value is the pointer
    def sp_get(E, e, st, fr):
        out = []
        for l, s in smart_loc(E, e, st, fr):
            v, s = E.read(l, None, s)
            out.append((v, s))
        return out

    def sp_arrow(E, e, st, fr):
        return sp_get(E, e, st, fr)

    def sp_deref(E, e, st, fr):
        out = []
        for v, s in sp_get(E, e, st, fr):
            for l, s2 in E.deref(v, s, e, fr):
                out.append((('lref', l), s2))
        return out

    def sp_bool(E, e, st, fr):
        out = []
        for v, s in sp_get(E, e, st, fr):
            out.append((E.fold('bool', (v,)), s))
        return out

    def sp_release(E, e, st, fr):
        out = []
        for l, s in smart_loc(E, e, st, fr):
            v, s = E.read(l, None, s)
            out.append((v, s.set(l, NULL)))
        return out

    def sp_reset(E, e, st, fr):
        out = []
        for l, s in smart_loc(E, e, st, fr):
            if e['args'] and e['args'][0]['k'] != 'null':
                for v, s2 in E.ev(e['args'][0], s, fr):
                    out.append((VOID, E.write(l, v, s2, e, fr)))
            else:
                out.append((VOID, E.write(l, NULL, s, e, fr)))
        return out

    def take(E, a, st, fr):
        """Value of a smart-pointer argument that is moved from (or copied)."""
        out = []
        if a['k'] == 'null':
            return [(NULL, st)]
        T = fr.fn.ty(a)
        if T and not T.get('ptr') and T.get('rec') in SMART:
            moved = a['k'] == 'call' and a.get('q') == 'std::move' or a.get('xv')
            if a['k'] in ('ref', 'mem', 'idx', 'un') or (a['k'] == 'call' and a.get('q') in IDENT):
                for l, s in E.lv(a, st, fr):
                    v, s = E.read(l, None, s)
                    if moved:
                        s = s.set(l, NULL)
                    out.append((v, s))
                return out
            for v, s in E.ev(a, st, fr):
                if isinstance(v, tuple) and v and v[0] in ('lref', 'obj'):
                    v2, s = E.read(v[1], None, s)
                    v = v2
                out.append((v, s))
            return out
        return E.ev(a, st, fr)
    E.take = take

    def sp_assign(E, e, st, fr):
        obj = e['obj'] if e.get('obj') is not None else e['args'][0]
        a = e['args'][-1]
        out = []
        for v, s in take(E, a, st, fr):
            for l, s2 in E.lv(obj, s, fr):
                out.append((('lref', l), E.write(l, E.simplify(v, s2), s2, e, fr)))
        return out

    def sp_ctor(E, e, st, fr):
        if not e['args']:
            return [(NULL, st)]
        return take(E, e['args'][0], st, fr)

    def sp_eq(neg):
        def h(E, e, st, fr):
            ops = ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])
            if len(ops) != 2:
                return None
            out = []
            for a, s in take(E, ops[0], st, fr):
                for b, s2 in take(E, ops[1], s, fr):
                    v = E.fold('==', (E.simplify(a, s2), E.simplify(b, s2)))
                    out.append((E.fold('!', (v,)) if neg else v, s2))
            return out
        return h

    for c in SMART:
        M[c + '::get'] = sp_get
        M[c + '::operator->'] = sp_arrow
        M[c + '::operator*'] = sp_deref
        M[c + '::operator bool'] = sp_bool
        M[c + '::release'] = sp_release
        M[c + '::reset'] = sp_reset
        M[c + '::operator='] = sp_assign
        M['ctorval:' + c] = sp_ctor
    M['std::__shared_ptr_access::operator->'] = sp_arrow
    M['std::__shared_ptr_access::operator*'] = sp_deref
    M['std::__shared_ptr::get'] = sp_get
    M['std::__shared_ptr::operator bool'] = sp_bool

    def make_ptr(E, e, st, fr):
        """std::make_unique<T>(args...): a fresh object constructed by the matching constructor."""
        rec = strip_targs(e['ta'][0]) if e.get('ta') else None
        if rec is None or rec not in E.P.recs:
            out = []
            for s in E.ev_list_states(e['args'], st, fr):
                v, s = E.fresh(s, ('make', E.site(e, fr)))
                out.append((('p', ('h', v)), s))
            return out
        loc0 = ('h', E.site(e, fr))
        out = []
        cands = [f for f in E.P.funcs.values() if f.kind == 'ctor' and f.cls == rec and len(f.params) == len(e['args']) and f.body is not None]
        h = M.get('ctor:' + rec)
        for s0 in E.recency(loc0, st, E.site(e, fr)):
            if h:
                r = h(E, dict(e, q=rec, _id=e.get('_id', id(e))), loc0, s0, fr)
                out += [(('p', loc0), s.set(loc0 + ('__cls',), ('str', rec))) for _, s in r]
                continue
            if len(cands) == 1 and E.should_inline(cands[0], e):
                for args, s in E.ev_args(e['args'], cands[0], s0, fr):
                    s = s.set(loc0 + ('__alive',), 1).set(loc0 + ('__cls',), ('str', rec))
                    for v, s2 in E.call_fn(cands[0], args, loc0, s, e, fr):
                        out.append((('p', loc0), s2))
                continue
            for s in E.ev_list_states(e['args'], s0, fr):
                s = E.opaque_effects(e, s, fr)
                s = s.set(loc0 + ('__alive',), 1).set(loc0 + ('__cls',), ('str', rec))
                out.append((('p', loc0), s))
        return out
    M['std::make_unique'] = make_ptr
    M['std::make_shared'] = make_ptr

    # ---- std::function / reference_wrapper
    def fn_call(E, e, st, fr):
        out = []
        for f, s in E.ev(e['obj'], st, fr):
            out += E.call_value(f, e, s, fr)
        return out
    M['std::function::operator()'] = fn_call

    def refwrap_get(E, e, st, fr):
        out = []
        for v, s in E.ev(e['obj'], st, fr):
            if isinstance(v, tuple) and v and v[0] == 'lref':
                out.append((v, s))
            elif isinstance(v, tuple) and v and v[0] == 'p':
                out.append((('lref', v[1]), s))
            else:
                out.append((('lref', ('d', v)), s))
        return out
    M['std::reference_wrapper::get'] = refwrap_get

    def refwrap_mk(E, e, st, fr):
        if e.get('cm'):
            return E.ev(e['args'][0], st, fr)
        return [(('p', l), s) for l, s in E.lv(e['args'][0], st, fr)]
    M['std::ref'] = refwrap_mk
    M['std::cref'] = refwrap_mk
    M['ctorval:std::reference_wrapper'] = refwrap_mk
    E.model_pred.append((lambda q, e: q.startswith('std::reference_wrapper::operator'), refwrap_get))

    # ---- optional
    def opt_val(E, e, st, fr):
        out = []
        for l, s in smart_loc(E, e, st, fr):
            v, s = E.read(l, None, s)
            out.append((v, l, s))
        return out

    def opt_has(E, e, st, fr):
        out = []
        for v, l, s in opt_val(E, e, st, fr):
            if v == ('none',):
                out.append((0, s))
            elif isinstance(v, tuple) and v[0] == 'some':
                out.append((1, s))
            else:
                out.append((E.fold('bool', (v,)), s))
        return out
    M['std::optional::has_value'] = opt_has
    M['std::optional::operator bool'] = opt_has

    def opt_get(E, e, st, fr):
        out = []
        for v, l, s in opt_val(E, e, st, fr):
            if v == ('none',):
                if E.null_hook:
                    E.null_hook(e, s, fr)
                continue
            if isinstance(v, tuple) and v[0] == 'some':
                x = v[1]
                if isinstance(x, tuple) and x and x[0] == 'obj':
                    out.append((('lref', x[1]), s))
                else:
                    loc = l + ('__val',)
                    s = s.set(loc, x)
                    out.append((('lref', loc), s))
            else:
                out.append((('lref', ('d', ('s', ('optval', v)))), s))
        return out

    def opt_arrow(E, e, st, fr):
        return [(('p', v[1]), s) for v, s in opt_get(E, e, st, fr)]
    M['std::optional::value'] = opt_get
    M['std::optional::operator*'] = opt_get
    M['std::optional::operator->'] = opt_arrow

    def opt_ctor(E, e, st, fr):
        if not e['args']:
            return [(('none',), st)]
        a = e['args'][0]
        T = fr.fn.ty(a)
        if T and T.get('rec') == 'std::nullopt_t':
            return [(('none',), st)]
        if e.get('cm') or (T and T.get('rec') == 'std::optional'):
            return E.ev(a, st, fr)
        out = []
        for v, s in E.ev(a, st, fr):
            if isinstance(v, tuple) and v and v[0] == 'lref':
                v, s = E.read(v[1], None, s)
            out.append((('some', v), s))
        return out
    M['ctorval:std::optional'] = opt_ctor

    def opt_assign(E, e, st, fr):
        out = []
        obj = e['obj'] if e.get('obj') is not None else e['args'][0]
        for v, s in opt_ctor(E, {'args': [e['args'][-1]]}, st, fr):
            for l, s2 in E.lv(obj, s, fr):
                out.append((('lref', l), E.write(l, v, s2, e, fr)))
        return out
    M['std::optional::operator='] = opt_assign

    # ---- pairs and tuples
    def get_i(E, e, st, fr):
        ta = e.get('ta')
        if not ta or len(e['args']) != 1:
            return None
        T = fr.fn.ty(e['args'][0])
        if not T or T.get('rec') not in ('std::pair', 'std::tuple', 'std::array'):
            return None
        try:
            i = int(re.sub('[^0-9]', '', ta[0]))
        except ValueError:
            return None
        fld = ('first', 'second')[i] if T['rec'] == 'std::pair' else ('i', i)
        return [(('lref', l + (fld,)), s) for l, s in E.lv(e['args'][0], st, fr)]
    M['std::get'] = get_i

    def mk_pair(E, e, st, fr):
        loc = ('t', fr.depth, E.site(e, fr))
        states = [E.kill_prefix(loc, st)]
        for i, a in enumerate(e['args']):
            ns = []
            T = dict(fr.fn.ty(a) or {})
            T.pop('ref', None)
            for s in states:
                ns += E.init_loc(loc + ((('first', 'second')[i] if e['n'] == 'make_pair' else ('i', i)),), T, a, s, fr)
            states = ns
        return [(('obj', loc), s) for s in states]
    M['std::make_pair'] = mk_pair
    M['std::make_tuple'] = mk_pair

    # bit operations of concrete values
    U = (1 << 64) - 1

    def bits(f, argc=1):
        def h(E, e, st, fr):
            out = []
            todo = [((), st)]
            for a in e['args'][:argc]:
                todo = [(vs + (v,), s2) for vs, s in todo for v, s2 in E.ev(a, s, fr)]
            for vs, s in todo:
                if not all(isinstance(v, int) for v in vs):
                    return None
                out.append((f(*[v & U for v in vs]), s))
            return out
        return h

    def pext(x, m):
        r = k = 0
        while m:
            low = m & -m
            if x & low:
                r |= 1 << k
            k += 1
            m ^= low
        return r

    def pdep(x, m):
        r = k = 0
        while m:
            low = m & -m
            if x >> k & 1:
                r |= low
            k += 1
            m ^= low
        return r
    ctz = lambda x: (x & -x).bit_length() - 1 if x else 64
    for n in ('_blsr_u64', '__blsr_u64', '__builtin_ia32_blsr_u64'):
        M[n] = bits(lambda x: x & (x - 1) & U)
    for n in ('_blsi_u64', '__blsi_u64'):
        M[n] = bits(lambda x: x & -x & U)
    for n in ('_blsmsk_u64', '__blsmsk_u64'):
        M[n] = bits(lambda x: (x ^ (x - 1)) & U)
    for n in ('_pext_u64', '__builtin_ia32_pext_di'):
        M[n] = bits(pext, 2)
    for n in ('_pdep_u64', '__builtin_ia32_pdep_di'):
        M[n] = bits(pdep, 2)

    def width(e, fr):
        T = fr.fn.ty(e['args'][0]) or {}
        return {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32}.get((T.get('canon') or T.get('s') or '').replace('const ', ''), 64)

    def countz(lead):
        def h(E, e, st, fr):
            w = width(e, fr)
            return bits(lambda x: (w - x.bit_length() if lead else min(ctz(x), w)))(E, e, st, fr)
        return h
    M['std::countr_zero'] = countz(False)
    M['std::countl_zero'] = countz(True)
    for n in ('std::popcount', '__builtin_popcountl', '__builtin_popcount', '__builtin_popcountll', '_mm_popcnt_u64'):
        M[n] = bits(lambda x: bin(x).count('1'))
    for n in ('__builtin_ctzl', '__builtin_ctz', '__builtin_ctzll', '_tzcnt_u64'):
        M[n] = bits(ctz)
    M['__builtin_clz'] = bits(lambda x: 32 - (x & 0xffffffff).bit_length())
    M['__builtin_clzl'] = M['__builtin_clzll'] = M['_lzcnt_u64'] = bits(lambda x: 64 - x.bit_length())
    M['std::bit_width'] = bits(lambda x: x.bit_length())
    M['std::bit_ceil'] = bits(lambda x: 1 << (x - 1).bit_length() if x > 1 else 1)
    M['std::has_single_bit'] = bits(lambda x: int(x != 0 and x & (x - 1) == 0))
    M['std::bit_width'] = bits(lambda x: x.bit_length())
    M['std::bit_ceil'] = bits(lambda x: 1 << (x - 1).bit_length() if x > 1 else 1)
    M['std::bit_floor'] = bits(lambda x: 1 << x.bit_length() - 1 if x else 0)
