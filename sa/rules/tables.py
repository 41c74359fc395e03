"""D03: tables and their attributes.   D04: schemas."""
import itertools
import os

from ..containers import bases, elems, make, node, seq
from ..engine import NULL, VOID, State
from ..ir import AnalysisBroken
from ..registry import check
from .catalog import NAMES, Tabs, field

TU = '/verif/drivers/tables.cpp'
TAB = ('root', 'T')
TYPES = {0: ('p', ('root', 'ty', 0)), 1: ('p', ('root', 'ty', 1)), 'i8': ('p', ('root', 'ty', 'i8')), 'scalar': ('p', ('root', 'ty', 'scalar'))}
LETTERS = ('a', 'b', 'i', 'j')
for _n in LETTERS + ('$ts_begin', '$ts_end', '$const', 'p', 'q', ''):
    NAMES[_n] = ('str', _n)


class Sem(Tabs):
    def __init__(self, c, pid, tus=()):
        super().__init__(c, pid, (TU, 'src/catalog/Schema.cpp') + tuple(tus))
        P, E, M = self.P, self.E, self.E.models
        E.lower_ranges = True
        for q in ('m::Table::schema', 'm::Schema::add', 'ctor:m::Schema', 'm::Table::store', 'm::Table::layout'):
            M.pop(q)
        M['drv::attr'] = lambda E, e, st, fr: [(VOID, self.event(s, ('attr', l))) for l, s in E.lv(e['args'][0], st, fr)]
        M['drv::number'] = self.number
        M['drv::ent'] = lambda E, e, st, fr: [(VOID, self.event(s, ('ent', l))) for l, s in E.lv(e['args'][0], st, fr)]
        M['m::Type::is_vectorial'] = lambda E, e, st, fr: [(int(l[-1] != 'scalar'), s) for l, s in E.obj_loc(e, st, fr)]
        M['m::PrimitiveType::is_vectorial'] = M['m::Type::is_vectorial']
        M['m::Type::Get_Integer'] = lambda E, e, st, fr: [(TYPES['i8'] if self.ints(e, st, fr)[1:2] == [8] else ('p', ('root', 'ty', 'other')), st)]
        M['m::Catalog::pool'] = self.pool
        M['m::Catalog::get_pool'] = lambda E, e, st, fr: [(('lref', ('root', 'pool')), st)]
        M['m::StringPool::operator()'] = self.pool
        for q in ('m::ThreadSafeStringPool::operator()', 'm::PODPool::operator()'):
            M[q] = self.pool
        M['m::Pool::Get'] = self.pget
        M['strlen'] = self.strlen
        M['std::strlen'] = self.strlen
        self.ftype = field(P, 'm::Attribute', lambda T: T.get('ptr') and 'Type' in T['s'], 'the type')
        self.fpk = field(P, 'm::ConcreteTable', lambda T: T.get('rec') == 'm::SmallBitset', 'the primary key')
        bs = [f['n'] for f in P.recs['m::SmallBitset']['fields'] if not f.get('bits')]
        if len(bs) != 1:
            raise AnalysisBroken('anchor vanished: the bits of SmallBitset')
        self.fbits = bs[0]

    def ints(self, e, st, fr):
        return [self.E.ev(a, st, fr)[0][0] for a in e['args']]

    def pool(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            if isinstance(v, tuple) and v[:1] == ('p',):
                v = s.mem.get(v[1], v)
            if isinstance(v, tuple) and v and v[0] in ('strlit', 'lit'):
                v = ('str', v[1])
            out.append((v, s))
        return out

    def number(self, E, e, st, fr):
        out = []
        for v, s in self.K.val(e['args'][0], st, fr):
            if not isinstance(v, int):
                raise AnalysisBroken('%s: unknown number %s' % (fr.fn.loc(e), v))
            out.append((VOID, self.event(s, ('num', v))))
        return out

    def exctype(self, thrown, want):
        for t, s in thrown:
            if want != 'any' and t.typ and not E_derives(self.E, t.typ, want):
                self.viol('type', 'throws %s instead of %s' % (t.typ, want))

    def pget(self, E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            if isinstance(v, tuple) and v[:1] in (('obj',), ('lref',)):
                v = s.mem.get(v[1], v)
            if not (isinstance(v, tuple) and v[:1] == ('p',)):
                return None
            out.append((('lref', v[1]), s))
        return out

    def strlen(self, E, e, st, fr):
        out = []
        for v, s in E.ev(e['args'][0], st, fr):
            t = v[1][1][1] if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'text' else v[1]
            if isinstance(t, tuple):
                t = t[1]
            out.append((len(t), s))
        return out

    # -- state: attributes [(name, type, hidden, unique, ref)], primary key ids, decorated
    def load_table(self, st, loc, name, attrs, pk, deco=False):
        cls = 'm::ConcreteTable'
        if deco:
            st = st.set(loc + ('__cls',), ('str', 'm::MultiVersioningTable')).set(loc + (self.tdeco,), ('p', loc + ('inner',)))
            loc = loc + ('inner',)
        st = st.set(loc + ('__cls',), ('str', cls)).set(loc + (self.tname,), NAMES[name]).set(loc + ('__alive',), 1)
        A, Mp = loc + (self.tattrs,), loc + (self.tmap,)
        st = make(make(st, A, range(len(attrs))), Mp, range(len(attrs)))
        for i, a in enumerate(attrs):
            x = node(A, i)
            st = (st.set(x + ('id',), i).set(x + ('name',), NAMES[a[0]]).set(x + ('table', '__ref'), loc).set(x + ('is_hidden',), a[2])
                  .set(x + (self.ftype,), TYPES[a[1]]).set(x + ('unique',), a[3]).set(x + ('not_nullable',), a[4] if len(a) > 4 else 0).set(x + ('reference',), NULL))
            st = st.set(node(Mp, i) + ('first',), NAMES[a[0]]).set(node(Mp, i) + ('second',), i)
        return st.set(loc + (self.fpk, self.fbits), sum(1 << i for i in pk))

    def read_table(self, st, loc):
        A, Mp = loc + (self.tattrs,), loc + (self.tmap,)
        if seq(st, A) is None or seq(st, Mp) is None:
            raise AnalysisBroken('the attributes of the table are unknown')
        attrs = []
        for i, x in enumerate(elems(st, A)):
            g = lambda f: st.mem.get(x + (f,))
            if g('id') != i:
                self.viol('id', 'an attribute does not have the id of its position')
            if st.mem.get(x + ('table', '__ref')) != loc:
                self.viol('table', 'an attribute does not refer to its table')
            attrs.append((g('name')[1] if isinstance(g('name'), tuple) else g('name'), next((k for k, v in TYPES.items() if v == g(self.ftype)), None), g('is_hidden'), g('unique'), g('not_nullable')))
        m = {}
        for x in elems(st, Mp):
            k, v = st.mem.get(x + ('first',)), st.mem.get(x + ('second',))
            m[k[1]] = v
        if m != {a[0]: i for i, a in enumerate(attrs)}:
            self.viol('names', 'the attribute names map to %s instead of %s' % (m, {a[0]: i for i, a in enumerate(attrs)}))
        b = st.mem.get(loc + (self.fpk, self.fbits))
        return attrs, b


def E_derives(E, t, want):
    from ..engine import STD_EXC
    if t == want:
        return True
    return any(E_derives(E, b, want) for b in STD_EXC.get(t, []) + [b for b in bases(E.P, t)])


def show(attrs, pk, deco):
    return '%s(%s)' % ('multi-versioned ' if deco else '', ', '.join('%s%s%s%s' % (a[0], ' hidden' if a[2] else '', ' unique' if a[3] else '', ' key' if i in pk else '') for i, a in enumerate(attrs)))


@check('D03', 'Tables number, name and hide their attributes consistently')
def d03(c):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    W = Sem(c, 'D03')
    P, E = W.P, W.E
    n = 0
    F = lambda name: P.one('drv::' + name)
    maxn = 4 if thorough else 3
    states = []
    for k in range(maxn + 1):
        for hid in itertools.product((0, 1), repeat=k):
            states.append(([(LETTERS[i], i % 2, hid[i], 0, 0) for i in range(k)], (), False))
    states.append(([('a', 0, 0, 0, 0), ('b', 1, 1, 0, 0), ('i', 0, 0, 0, 0)], (0, 2), True))
    states.append(([('a', 0, 0, 1, 1), ('b', 1, 0, 0, 0)], (1,), False))
    states.append(([('a', 0, 0, 0, 0), ('b', 1, 0, 0, 1), ('i', 0, 1, 1, 0)], (1, 2), False))
    for attrs, pk, deco in states:
        base = W.load_table(State().withmon(()), TAB, 't', attrs, pk, deco)
        inner = TAB + ('inner',) if deco else TAB
        A = inner + (W.tattrs,)
        vis = [i for i, a in enumerate(attrs) if not a[2]]
        hid = [i for i, a in enumerate(attrs) if a[2]]
        al = list(range(len(attrs)))
        at = lambda i: ('attr', node(A, i))

        def go(name, args, want, change=None, what=''):
            nonlocal n
            n += 1
            fn = F(name)
            W.op = name
            W.show = 'table %s%s' % (show(attrs, pk, deco), what)
            st = base
            av = [('ref', TAB)]
            for i, a in enumerate(args):
                if isinstance(a, tuple) and a[0] == 'name':
                    st = st.set(('root', 'arg', i), NAMES[a[1]])
                    av.append(('ref', ('root', 'arg', i)))
                elif isinstance(a, tuple) and a[0] == 'nameval':
                    av.append(('val', NAMES[a[1]]))
                else:
                    av.append(('val', a))
            rets, thrown = W.run(fn, st, None, av)
            if isinstance(want, str):
                if rets or not thrown:
                    W.viol('nothrow', 'does not throw an exception')
                W.exctype(thrown, want)
            else:
                if thrown:
                    W.viol('throws', 'throws an exception')
                if not rets:
                    W.viol('none', 'has no normal outcome')
                for v, s in rets:
                    if want is not None and list(s.mon) != want:
                        W.viol('result', 'yields %s instead of %s' % (ev(s.mon), ev(want)))
            for s in [s for _, s in rets] + [s for _, s in thrown]:
                got = W.read_table(s, inner)
                exp = (change if change and not isinstance(want, str) else (attrs, sum(1 << i for i in pk)))
                if got != ([tuple(a) for a in exp[0]], exp[1]):
                    W.viol('effect', 'leaves the attributes %s instead of %s' % (got, exp))
            return rets
        for nm, ids in (('visible', vis), ('hidden', hid), ('all', al)):
            go(nm, (), [at(i) for i in ids])
            go('c' + nm, (), [at(i) for i in ids])
            go('r' + nm, (len(ids),), [at(i) for i in reversed(ids)])
            for k in range(len(ids)):
                go('j' + nm, (k,), [at(ids[k]), at(ids[0])], what=', %d steps' % k)
            for i in range(len(ids) + 1):
                for j in range(len(ids) + 1):
                    go('d' + nm, (i, j), [('num', j - i), ('num', int(i == j))], what=', positions %d and %d' % (i, j))
        go('counts', (), [('num', len(vis)), ('num', len(hid)), ('num', len(al))])
        for i in range(len(attrs) + 2):
            go('at_id', (i,), [at(i), at(i)] if i < len(attrs) else 'std::out_of_range', what=', id %d' % i)
            if i < len(attrs):
                go('sub_id', (i,), [at(i), at(i)], what=', id %d' % i)
            if i < len(vis):
                go('convert', (i,), [('num', vis[i])], what=', id %d' % i)
        ids = {a[0]: i for i, a in enumerate(attrs)}
        for x in LETTERS + ('x',):
            go('at_name', (('name', x),), [at(ids[x])] * 2 if x in ids else 'std::out_of_range', what=', name ' + x)
            if x in ids:
                go('sub_name', (('name', x),), [at(ids[x])] * 2, what=', name ' + x)
            go('has', (('name', x),), [('num', int(x in ids))], what=', name ' + x)
            go('addpk', (('name', x),), [] if x in ids else 'std::out_of_range', (attrs, sum(1 << i for i in set(pk) | {ids[x]})) if x in ids else None, what=', name ' + x)
            for ty in (0, 'scalar'):
                go('push', (('nameval', x), TYPES[ty]), [] if x not in ids and ty == 0 else 'm::invalid_argument' if x not in ids else 'std::invalid_argument' if ty == 0 else 'any', (attrs + [(x, ty, 0, 0, 0)], sum(1 << i for i in pk)), what=', name %s%s' % (x, ', of scalar type' if ty else ''))
        go('pk', (), [at(i) for i in sorted(pk)])
        for nm in ('t', 'u'):
            go('nameof', (('name', nm),), [('num', int(nm == 't'))])
        for i in range(len(attrs)):
            n += 1
            W.op, W.show = 'unique', 'attribute %s of %s' % (attrs[i][0], show(attrs, pk, deco))
            for v, s in W.run(F('unique'), base, None, [('ref', node(A, i))])[0]:
                if s.mon != (('num', int(bool(attrs[i][3] or tuple(pk) == (i,)))),):
                    W.viol('result', 'yields %s' % ev(s.mon))
            for j in range(len(attrs)):
                other = W.load_table(base, ('root', 'U'), 'u', attrs, pk)
                for B, same in ((A, i == j), (('root', 'U', W.tattrs), False)):
                    n += 1
                    W.op = 'same'
                    for v, s in W.run(F('same'), other, None, [('ref', node(A, i)), ('ref', node(B, j))])[0]:
                        if s.mon != (('num', int(same)), ('num', int(not same))):
                            W.viol('result', 'yields %s' % ev(s.mon))
        schemas(c, W, base, attrs, pk, deco, inner)
        n += 2
    n += equality(W)
    n += versioning(W)
    c.floor('instances', n, 900)
    c.ob(n)
    c.use(E)
    c.rule('Every operation of plain and multi-versioned tables is interpreted for every table of up to three (thorough: four) attributes with every combination of '
           'hidden attributes, and for selected primary keys, unique and non-null flags; results, exceptions and the state of the table afterwards must be those of the reference.')


def ev(mon):
    return '[%s]' % ', '.join('attribute %s' % (x[1][-1][1],) if x[0] == 'attr' else str(x[1]) for x in mon)


def schema_entries(W, s, v):
    l = v[1]
    F = W.P.recs['m::Schema']['fields']
    L = l + (F[0]['n'],)
    if seq(s, L) is None:
        raise AnalysisBroken('the entries of the schema are unknown')
    return [entry(s, x) for x in elems(s, L)]


def entry(s, x):
    g = lambda *f: s.mem.get(x + f)
    t = g('type')
    nm = lambda v: v[1] if isinstance(v, tuple) and v[0] == 'str' else None
    return (nm(g('id', 'prefix')), nm(g('id', 'name')), next((k for k, v in TYPES.items() if v == t), None), g('constraints'))


def schemas(c, W, base, attrs, pk, deco, inner):
    E = W.P.enums['m::Schema::entry_type::constraints_t']
    A = inner + (W.tattrs,)
    # references: the last attribute refers to the first attribute of another table that is unique or not
    for refu in (0, 1):
        st = W.load_table(base, ('root', 'U'), 'u', [('a', 0, 0, refu, 0)], ())
        if attrs:
            st = st.set(node(A, len(attrs) - 1) + ('reference',), ('p', node(('root', 'U', W.tattrs), 0)))
        want = []
        for i, a in enumerate(attrs):
            k = E['NOT_NULLABLE'] * bool(a[4]) | E['UNIQUE'] * bool(a[3] or tuple(pk) == (i,)) | E['IS_HIDDEN'] * bool(a[2])
            if i == len(attrs) - 1:
                k |= E['REFERENCES_UNIQUE'] * refu
            want.append((a[0], a[1], k))
        for fn, args, prefix in (('schema', [], 't'), ('aschema', [('val', NAMES['x'])], 'x'), ('aschema', [('val', NULL)], 't')):
            W.op, W.show = 'schema', 'table ' + show(attrs, pk, deco)
            rets, thrown = W.run(W.P.one('drv::' + fn), st, None, [('ref', TAB)] + args)
            if thrown or not rets:
                W.viol('throws', 'throws an exception')
            for v, s in rets:
                got = schema_entries(W, s, v)
                if got != [(prefix,) + w for w in want]:
                    W.viol('entries', 'yields %s instead of %s' % (got, [(prefix,) + w for w in want]))


def equality(W):
    a = [('a', 0, 0, 0, 0)]
    n = 0
    for d1 in (False, True):
        for d2 in (False, True):
            st = W.load_table(State().withmon(()), TAB, 't', a, (), d1)
            st = W.load_table(st, ('root', 'U'), 't', a, (), d2)
            for L, M2, same in ((TAB, TAB, 1), (TAB, ('root', 'U'), 0), (('root', 'U'), TAB, 0)):
                n += 1
                W.op, W.show = 'equality', 'two tables of the same name, %s' % ('the same' if same else 'different ones')
                rets, thrown = W.run(W.P.one('drv::eq'), st, None, [('ref', L), ('ref', M2)])
                for v, s in rets:
                    if s.mon != (('num', same),):
                        W.viol('result', 'yields %s' % ev(s.mon))
                if not rets or thrown:
                    W.viol('none', 'has no result')
    return n


def versioning(W):
    n = 0
    E = W.P.enums['m::Schema::entry_type::constraints_t']
    for attrs in ([], [('a', 0, 0, 0, 0)], [('a', 0, 0, 1, 1), ('b', 1, 0, 0, 0)]):
        n += 1
        st = W.load_table(State().withmon(()), TAB, 't', attrs, ())
        W.op, W.show = 'MultiVersioningTable', 'table ' + show(attrs, (), False)
        rets, thrown = W.run(W.P.one('drv::mv'), st, None, [('val', ('p', TAB))])
        if thrown or not rets:
            W.viol('throws', 'throws an exception')
        for v, s in rets:
            got = W.read_table(s, TAB)
            exp = ([tuple(a) for a in attrs] + [('$ts_begin', 'i8', 1, 0, 1), ('$ts_end', 'i8', 1, 0, 1)], 0)
            if got != exp:
                W.viol('effect', 'leaves the attributes %s instead of %s' % (got, exp))
    return n


# --------------------------------------------------------------------------------------------------------------- D04
SCH, SCH2 = ('root', 'S'), ('root', 'S2')


def load_id(st, l, i):
    return st.set(l + ('prefix',), NAMES[i[0]] if i[0] is not None else NULL).set(l + ('name',), NAMES[i[1]]).set(l + ('__alive',), 1)


def load_schema(W, st, l, es):
    L = l + (W.P.recs['m::Schema']['fields'][0]['n'],)
    st = make(st.set(l + ('__alive',), 1), L, range(len(es)))
    for k, (i, t, c) in enumerate(es):
        x = node(L, k)
        st = load_id(st, x + ('id',), i).set(x + ('type',), TYPES[t]).set(x + ('constraints',), c).set(x + ('__alive',), 1)
    return st


def read_schema(W, s, l):
    return [((p, n), t, c) for p, n, t, c in schema_entries(W, s, ('obj', l))]


class Amb(Exception):
    pass


def sfind(es, i):
    k = [j for j, e in enumerate(es) if e[0] == i]
    if len(k) > 1:
        raise Amb('m::invalid_argument')
    return k[0] if k else None


def sunite(a, b):
    a = list(a)
    for e in b:
        if sfind(a, e[0]) is None:
            a.append(e)
    return a


def sinter(a, b):
    out = []
    for e in a:
        k = sfind(b, e[0])
        if k is not None:
            if b[k][1] != e[1]:
                raise Amb('m::invalid_argument')
            out.append((e[0], e[1], e[2] | b[k][2]))
    return out


def sequal(a, b):
    return int(all(sfind(b, e[0]) is not None for e in a) and all(sfind(a, e[0]) is not None for e in b))


def sget(es, i):
    k = sfind(es, i)
    if k is None:
        raise Amb('m::out_of_range')
    return k


@check('D04', 'Schemas are sequences of identified entries')
def d04(c):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    W = Sem(c, 'D04')
    P, E = W.P, W.E
    F = lambda name: P.one('drv::' + name)
    C = P.enums['m::Schema::entry_type::constraints_t']
    ids = [(None, 'a'), ('p', 'a'), ('q', 'a'), (None, 'b'), (None, '$const'), ('p', '$const')]
    n = 0

    def go(name, es, args, ref, other=None, this=True):
        """ref() yields (events, result, entries afterwards) or raises Amb(type)."""
        nonlocal n
        n += 1
        W.op = name
        W.show = 'schema %s%s%s' % (es, ' and %s' % (other,) if other is not None else '', ', %s' % (args,) if args else '')
        st = load_schema(W, State().withmon(()), SCH, es)
        av = [('ref', SCH)] if this else []
        if other is not None:
            st = load_schema(W, st, SCH2, other)
            av.append(('ref', SCH2))
        for k, a in enumerate(args):
            l = ('root', 'arg', k)
            if isinstance(a, tuple) and a[0] == 'id':
                st = load_id(st, l, a[1])
                av.append(('ref', l))
            elif isinstance(a, tuple) and a[0] == 'entry':
                st = load_id(st, l + ('id',), a[1][0]).set(l + ('type',), TYPES[a[1][1]]).set(l + ('constraints',), a[1][2]).set(l + ('__alive',), 1)
                av.append(('ref', l))
            else:
                av.append(('val', a))
        try:
            want, exc = ref(), None
        except Amb as x:
            want, exc = None, str(x)
        rets, thrown = W.run(F(name), st, None, av)
        if exc:
            if rets or not thrown:
                W.viol('nothrow', 'does not throw %s' % exc)
            W.exctype(thrown, exc)
            return
        if thrown or not rets:
            W.viol('throws', 'throws an exception')
        for v, s in rets:
            evs, res, after = want
            got = []
            for x in s.mon:
                if x[0] == 'num':
                    got.append(x[1])
                elif x[0] == 'ent':
                    got.append(_ent(entry(s, x[1])))
            if evs is not None and got != evs:
                W.viol('result', 'yields %s instead of %s' % (got, evs))
            if res is not None:
                r = read_schema(W, s, v[1]) if isinstance(v, tuple) and v[:1] in (('obj',), ('lref',)) else None
                if r != list(res):
                    W.viol('value', 'yields %s instead of %s' % (r, list(res)))
            now = read_schema(W, s, SCH) if this else None
            if this and now != list(after if after is not None else es):
                W.viol('effect', 'leaves the entries %s instead of %s' % (now, list(after if after is not None else es)))
            if other is not None and read_schema(W, s, SCH2) != list(other):
                W.viol('operand', 'changes its operand')
    seqs = []
    for k in range(4 if thorough else 3):
        for xs in itertools.product(ids if k < 3 else ids[:4], repeat=k):
            seqs.append([(x, j % 2, (0, C['UNIQUE'], C['NOT_NULLABLE'] | C['IS_HIDDEN'])[j % 3]) for j, x in enumerate(xs)])
    if not thorough:
        seqs += [[(ids[x], j % 2, j) for j, x in enumerate(xs)] for xs in ((0, 1, 0), (1, 0, 3), (0, 0, 0), (4, 0, 5), (3, 2, 3), (0, 3, 3), (1, 1, 2), (4, 4, 1))]
    for es in seqs:
        go('slist', es, [], lambda: (es, None, None))
        go('snum', es, [], lambda: ([len(es), int(not es), len(es)], None, None))
        for i in ids:
            def find():
                k = sfind(es, i)
                return ([-1 if k is None else es[k], int(k is None)], None, None)
            go('sfind', es, [('id', i)], find)
            go('shas', es, [('id', i)], lambda: ([int(sfind(es, i) is not None)], None, None))
            go('sati', es, [('id', i)], lambda: ([sget(es, i), es[sget(es, i)]] * 2, None, None))
            if sum(e[0] == i for e in es) == 1:
                go('ssubi', es, [('id', i)], lambda: ([sget(es, i), es[sget(es, i)]] * 2, None, None))
        for k in range(len(es) + 2):
            def at():
                if k >= len(es):
                    raise Amb('m::out_of_range')
                return ([es[k]] * 2, None, None)
            go('satn', es, [k], at)
            if k < len(es):
                go('ssubn', es, [k], at)
        for i in ids[:3] + ids[4:5]:
            go('sadd1', es, [('entry', (i, 1, 5))], lambda: ([], None, es + [(i, 1, 5)]))
            go('sadd2', es, [('id', i), TYPES[0]], lambda: ([], None, es + [(i, 0, 0)]))
            go('sadd3', es, [('id', i), TYPES[1], 2], lambda: ([], None, es + [(i, 1, 2)]))

        def dedup():
            out = []
            for e in es:
                if all(e[0] != x[0] for x in out):
                    out.append(e)
            return ([], out, None)
        go('sdedup', es, [], dedup)
        go('sdrop', es, [], lambda: ([], [e for e in es if e[0] != (None, '$const')], None))
    few = [s for s in seqs if len(s) <= 2 and all(e[0] in ids[:2] + ids[3:4] for e in s)]
    few += [[((None, 'a'), 1, 4)], [((None, 'b'), 0, 0), ((None, 'a'), 0, 8)], [((None, 'a'), 0, 1), (('p', 'a'), 0, 4), ((None, 'b'), 1, 2)],
            [((None, 'b'), 1, 4), ((None, 'a'), 0, 2), (('p', 'a'), 0, 0)]]
    if thorough:
        few += [s for s in seqs if len(s) == 3][::7]
    for a in few:
        for b in few:
            go('saddall', a, [], lambda: ([], None, a + b), b)
            go('splus', a, [], lambda: ([], a + b, None), b)
            go('sunite', a, [], lambda: ([], None, sunite(a, b)), b)
            go('sor', a, [], lambda: ([], sunite(a, b), None), b)
            go('sand', a, [], lambda: ([], sinter(a, b), None), b)
            go('seq', a, [], lambda: ([sequal(a, b), 1 - sequal(a, b)], None, None), b)
    for k in range(16):
        go('sflags', [], [('entry', ((None, 'a'), 0, k))], lambda: ([int(not k & C['NOT_NULLABLE']), int(bool(k & C['UNIQUE'])), int(bool(k & C['REFERENCES_UNIQUE']))], None, None), this=False)
    for i in ids:
        for j in ids:
            go('ideq', [], [('id', i), ('id', j)], lambda: ([int(i == j), int(i != j)], None, None), this=False)
    for p in (None, 'p', ''):
        n += 1
        W.op, W.show = 'idmk', 'prefix %s' % (repr(p),)
        rets, thrown = W.run(F('idmk'), State().withmon(()), None, [('val', NAMES[p] if p is not None else NULL), ('val', NAMES['a'])])
        if (p == '') != (not rets) or (p == '') != bool(thrown):
            W.viol('throws', 'accepts an empty prefix or rejects a prefix')
        for v, s in rets:
            g = lambda f: (lambda x: x[1] if isinstance(x, tuple) and x[0] == 'str' else None)(s.mem.get(v[1] + (f,)))
            if (g('prefix'), g('name')) != (p, 'a'):
                W.viol('value', 'yields %s.%s' % (g('prefix'), g('name')))
    c.floor('instances', n, 3000)
    c.ob(n)
    c.use(E)
    c.rule('Every operation of schemas is interpreted for every schema of up to two entries over six identifiers (thorough: three), and every operation of two schemas for all pairs '
           'of a set that includes duplicates, differing types and differing constraints; results, exceptions and both schemas afterwards must be those of the reference.')


def _ent(e):
    return ((e[0], e[1]), e[2], e[3])
