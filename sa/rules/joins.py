"""B01: join ordering."""
import itertools
import os

from ..containers import elems, make, node, seq
from ..engine import Limit, NULL, VOID, State
from ..ir import AnalysisBroken
from ..registry import check
from .catalog import World, field

TUS = ['src/IR/PlanEnumerator.cpp', 'src/util/AdjacencyMatrix.cpp']
G, CF, CE, PT, ADJ, SRC, ARR, COND = (('root', x) for x in ('G', 'CF', 'CE', 'pt', 'adj', 'sources', 'entries', 'cond'))
INF = float('inf')


class Joins(World):
    def __init__(self, c):
        super().__init__(c, 'B01', TUS)
        E, M = self.E, self.E.models
        E.MAX_DEPTH = 60
        E.WIDEN = None
        E.MAX_ELEMS = 4096
        E.allow_recursion = True
        E.lower_ranges = True
        M['m::QueryGraph::sources'] = lambda E, e, st, fr: [(('lref', SRC), st)]
        M['m::QueryGraph::num_sources'] = lambda E, e, st, fr: [(self.n, st)]
        M['m::QueryGraph::adjacency_matrix'] = lambda E, e, st, fr: [(('lref', ADJ), st)]
        M['m::Catalog::get_database_in_use'] = lambda E, e, st, fr: [(('lref', ('root', 'db')), st)]
        M['m::Database::cardinality_estimator'] = lambda E, e, st, fr: [(('lref', CE), st)]
        M['m::CardinalityEstimator::estimate_join'] = self.estimate
        M['m::CardinalityEstimator::estimate_join_all'] = self.estimate_all
        M['m::CardinalityEstimator::predict_cardinality'] = self.predict
        M['m::CostFunction::calculate_join_cost'] = self.cost
        P = self.P
        self.bits = field(P, 'm::SmallBitset', lambda T: True, 'the bits of a set')

    # ---- the environment
    def mask(self, v, what, e, fr):
        if isinstance(v, tuple) and v[:1] in (('lref',), ('p',), ('obj',)) and v[1][:2] == ('root', 'model'):
            return v[1][2]
        raise AnalysisBroken('%s: unknown %s %s' % (fr.fn.loc(e), what, str(v)[:80]))

    def setv(self, a, st, fr):
        out = []
        for l, s in self.E.lv(a, st, fr):
            v = s.mem.get(l + (self.bits,))
            if not isinstance(v, int):
                raise AnalysisBroken('%s: unknown set %s' % (fr.fn.loc(a), str(v)[:80]))
            out.append((v, s))
        return out

    def estimate(self, E, e, st, fr):
        out = []
        for l, s in E.lv(e['args'][1], st, fr):
            for r, s2 in E.lv(e['args'][2], s, fr):
                m = self.mask(('lref', l), 'model', e, fr), self.mask(('lref', r), 'model', e, fr)
                out.append((('p', ('root', 'model', m[0] | m[1])), s2))
        return out

    def estimate_all(self, E, e, st, fr):
        return [(('p', ('root', 'model', v)), s) for v, s in self.setv(e['args'][2], st, fr)]

    def predict(self, E, e, st, fr):
        return [(self.card[self.mask(('lref', l), 'model', e, fr)], s) for l, s in E.lv(e['args'][0], st, fr)]

    def cost(self, E, e, st, fr):
        out = []
        for l, s in self.setv(e['args'][3], st, fr):
            for r, s2 in self.setv(e['args'][4], s, fr):
                c = [s2.mem.get(self.entry(x) + ('cost',)) for x in (l, r)]
                out.append((c[0] + c[1] + self.card[l | r], s2))
        return out

    def entry(self, S):
        return ARR + (('i', S),)

    def start(self, n, edges, card):
        self.n, self.card = n, card
        st = State().withmon(())
        st = make(st, SRC, range(n)).set(SRC + ('__alive',), 1)
        adj = [0] * n
        for a, b in edges:
            adj[a] |= 1 << b
            adj[b] |= 1 << a
        for L in (ADJ, PT, G, CF, CE, COND):
            st = st.set(L + ('__alive',), 1)
        st = st.set(ADJ + ('num_vertices_',), n)
        for i in range(64):
            st = st.set(ADJ + ('m_', ('i', i), self.bits), adj[i] if i < n else 0)
        st = st.set(PT + ('num_sources_',), n).set(PT + ('num_additional_entries_',), 0).set(PT + ('table_',), ('p', ARR + (('i', 0),)))
        for S in range(1 << n):
            L = self.entry(S)
            one = bin(S).count('1') == 1
            for f in ('left', 'right'):
                st = st.set(L + (f, self.bits), 0)
            st = st.set(L + ('cost',), 0.0 if one else INF).set(L + ('model',), ('p', ('root', 'model', S)) if one else NULL).set(L + ('data',), NULL).set(L + ('__alive',), 1)
        return st

    def find(self, name):
        fs = [f for f in self.P.funcs.values() if f.q.split('::')[-2:] == [name, 'operator()'] and len(f.params) == 4]
        fs = [f for f in fs if 'SmallOrDense' in f.key]
        if not fs:
            raise AnalysisBroken('anchor vanished: %s::operator()' % name)
        return fs[0]

    def go(self, name, st):
        f = self.find(name)
        self.op = f.q
        tag = ('root', 'tag')
        self.where = f.loc()
        return self.run(f, st, ('root', 'this'), [('ref', tag), ('ref', PT), ('ref', G), ('ref', CF)])


def connected(adj, S):
    if not S:
        return False
    R = S & -S
    while True:
        N = R
        for i in range(len(adj)):
            if R >> i & 1:
                N |= adj[i] & S
        if N == R:
            return R == S
        R = N


def graphs(n):
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(1 << len(pairs)):
        E = [p for i, p in enumerate(pairs) if k >> i & 1]
        adj = [0] * n
        for a, b in E:
            adj[a] |= 1 << b
            adj[b] |= 1 << a
        if connected(adj, (1 << n) - 1):
            yield E


@check('B01', 'Join ordering')
def run(c):
    W = Joins(c)
