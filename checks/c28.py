import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State
from values import UFun, Clo, Opaque
import c04
import c05
import c09

TU = '''#include "/repo/include/arc_utilities/simple_prm_planner.hpp"
struct Thing { int id; };
struct Prm : simple_prm_planner::SimpleGeometricPrmPlanner { using SimpleGeometricPrmPlanner::AddNodeToRoadmap; using SimpleGeometricPrmPlanner::ExtractSolutionPath;
  using SimpleGeometricPrmPlanner::ROADMAP_TO_NEW_STATE; };
inline void use() { arc_dijkstras::Graph<Thing> g; const arc_dijkstras::Graph<Thing>& cg = g; std::function<double(const Thing&, const Thing&)> d; std::function<bool(const Thing&, const Thing&)> v;
std::function<Thing()> s; std::function<bool(const Thing&)> sv; std::function<bool()> te; Thing a, b; std::vector<Thing> as; std::vector<int64_t> ix;
Prm::AddNodeToRoadmap(a, Prm::ROADMAP_TO_NEW_STATE, g, d, v, 3); Prm::ExtractSolutionPath(cg, ix); Prm::ExtendRoadMap(g, s, d, sv, v, te, 3); Prm::BuildRoadMap(s, d, sv, v, te, 3);
Prm::UpdateRoadMapEdges(g, v, d); Prm::QueryPathAndAddNodesMultiStartSingleGoal(as, a, g, v, d, 3); Prm::QueryPathAndAddNodesSingleStartSingleGoal(a, b, g, v, d, 3);
Prm::LazyQueryPathAndAddNodesSingleStartSingleGoal(a, b, g, v, d, 3); Prm::QueryPathMultiStartMultiGoal(as, as, cg, v, d, 3); Prm::QueryPathMultiStartSingleGoal(as, a, cg, v, d, 3);
Prm::QueryPathSingleStartSingleGoal(a, b, cg, v, d, 3); Prm::LazyQueryPathSingleStartSingleGoal(a, b, cg, v, d, 3); }
'''
C = Check('C28', tus=dict(main=TU), proof_scope='the functions compiled without OpenMP, for every state type, roadmap, K and pure distance and validity function; the random-walk query is not covered',
          assumptions=['distances are finite and at least 0; the distance and validity functions are pure',
                       'contracts of GetKNearestNeighborsSerial (C09), Graph (C04), PerformDijkstrasAlgorithm (C05) and the A* searches (C06), proved by those checks'])
PRM = 'simple_prm_planner::SimpleGeometricPrmPlanner::'
I = IntSort()
i, j, k, q, r, t = Ints('i j k q r t')


def tys(prog):
    f = prog.fn(PRM + 'AddNodeToRoadmap')
    vt = prog.ty(f['p'][0]['t']).deref()
    gt = prog.ty(f['p'][2]['t']).deref()
    dbl = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'float' and prog.types[x].get('w') == 64)
    bl = next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'bool')
    return f, vt, gt, dbl, bl


class B:
    """the pieces of a roadmap problem"""

    def __init__(self, prog, E):
        self.prog, self.E = prog, E
        self.f, self.vt, self.gt, self.dbl, self.bl = tys(prog)

    def node(self, n, x):
        return self.E.S.unpack(n.et, Select(n.arr, x)).f

    def val(self, n, x):
        return self.node(n, x)['value_']

    def dist(self, fn, a, b):
        return self.E.call_ufun(State(), fn, [(self.vt, a), (self.vt, b)], self.dbl)

    def valid(self, fn, a, b):
        return self.E.call_ufun(State(), fn, [(self.vt, a), (self.vt, b)], self.bl)

    def P(self, v):
        return self.E.S.pack(self.vt, v)

    def same_node(self, n1, n0, x):
        return Select(n1.arr, x) == Select(n0.arr, x)

    def legal(self, n):
        """edge lists name existing nodes, lie at their own node, weigh at least 0"""
        out = []
        for fld, own, other in (('in_edges_', 'to_index_', 'from_index_'), ('out_edges_', 'from_index_', 'to_index_')):
            es = self.node(n, t)[fld]
            e = self.E.S.unpack(es.et, Select(es.arr, k)).f
            out.append((f'{fld[:-7]} edges are legal', FA([t, k], Implies(And(0 <= t, t < n.len, 0 <= k, k < es.len),
                                                                          And(0 <= e[other], e[other] < n.len, e[own] == t, e['weight_'] >= 0, e['weight_'] <= self.E.INF)), Select(es.arr, k))))
        return out

    def metric(self, fn):
        a, b = Consts('a b', self.E.S.sort(self.vt))
        d = self.dist(fn, self.E.S.unpack(self.vt, a), self.E.S.unpack(self.vt, b))
        return [('distances are finite and at least 0', FA([a, b], And(d >= 0, d < self.E.INF), d))]


def edges(E, es, k):
    return E.S.unpack(es.et, Select(es.arr, k)).f


def with_knn(prog, E):
    """GetKNearestNeighborsSerial as C09 proves it"""
    f = prog.fn('arc_helpers::GetKNearestNeighborsSerial')
    E.curty = prog.ty(f['p'][1]['t'])
    b = B(prog, E)

    def d(st, items, cur, fn, x):
        item = E.S.unpack(items.et, Select(items.arr, x))
        if isinstance(fn, UFun):
            return E.call_ufun(st, fn, [(items.et, item), (E.curty, cur)], b.dbl)
        s = st.copy()
        rs = E.call_value(s, fn, [item, cur], dict(a=[], t=None, l=None))
        if len(rs) != 1:
            raise Undecided('distance closure with several results')
        return E.rv(rs[0][0], rs[0][1])

    def pre(c):
        x = d(c.st0, c.arg(0), c.arg(1), c.arg(2), i)
        return [('finite distances', FA([i], And(x < E.INF, x > -E.INF), Select(c.arg(0).arr, i)))]

    def post(c):
        a = [c.arg(x) for x in range(4)]
        n = a[0].len
        return [('size', c.ret.len == c09.amin(a[3], n))] + knn_facts(b, lambda x: d(c.st0, *a[:3], x), c.ret, n, a[0])
    E.contracts[f['id']] = Contract(pre=pre, post=post)
    return f


# POS[i] = position of node i among the chosen neighbours or -1 (a choice: C09's "is chosen" made explicit, see the lemma below);
# at(i) is the same value under a name of its own, so that instances of the definition do not breed more instances
POS = Const('position_of', ArraySort(I, I))
at = Function('at', I, I)


def positions(b, v, n):
    fq = c09.slot(b.E, v, q)[0]
    return [('positions', FA([i], Implies(And(0 <= i, i < n), And(at(i) == Select(POS, i), Or(at(i) == -1, And(0 <= at(i), at(i) < v.len, c09.slot(b.E, v, at(i))[0] == i)))), at(i))),
            ('positions cover', FA([q], Implies(And(0 <= q, q < v.len), Select(POS, fq) == q), Select(v.arr, q)))]


def knn_facts(b, D, v, n, items):
    E = b.E
    fq, sq = c09.slot(E, v, q)
    fr, sr = c09.slot(E, v, r)
    return positions(b, v, n) + [
            ('neighbours are nodes with their distances', FA([q], Implies(And(0 <= q, q < v.len), And(0 <= fq, fq < n, sq == D(fq))), Select(v.arr, q))),
            ('no nearer node is left out', FA([i], Implies(And(0 <= i, i < n), Or(at(i) != -1, FA([r], Implies(And(0 <= r, r < v.len), D(i) >= sr), Select(v.arr, r)))), at(i)))]


def plain_facts(b, D, v, n, items):
    E = b.E
    fq, sq = c09.slot(E, v, q)
    fr, sr = c09.slot(E, v, r)
    return [('neighbours are nodes with their distances', FA([q], Implies(And(0 <= q, q < v.len), And(0 <= fq, fq < n, sq == D(fq))), Select(v.arr, q))),
            ('no neighbour twice', FA([q, r], Implies(And(0 <= q, q < r, r < v.len), fq != fr), (Select(v.arr, q), Select(v.arr, r)))),
            ('no nearer node is left out', FA([i], Implies(And(0 <= i, i < n), Or(Exists([q], And(0 <= q, q < v.len, fq == i)),
                                                                                  FA([r], Implies(And(0 <= r, r < v.len), D(i) >= sr), Select(v.arr, r)))), Select(items.arr, i)))]


def with_graph(prog, E):
    """addEdgeBetweenNodes and addNode as C04 proves them (legal endpoints demanded; linkage stays, by C04's lemmas)"""
    f = prog.fn(c04.G + 'addEdgeBetweenNodes')
    kept = lambda c: [('linkage kept', Implies(c04.opaque(E, c.this.f['nodes_']), c04.opaque(E, c.this1.f['nodes_'])))]
    b = B(prog, E)

    def add_node(c):
        n0, n1 = c.this.f['nodes_'], c.this1.f['nodes_']
        new = b.node(n1, n0.len)
        return [('one more node', n1.len == n0.len + 1), ('its index is returned', c.ret == n0.len), ('others unchanged', c04.same_vec(n1, n0, n0.len)), ('value', b.P(new['value_']) == b.P(c.arg(0))),
                ('no edges', And(new['in_edges_'].len == 0, new['out_edges_'].len == 0))] + kept(c)
    for a in prog.find(c04.G + 'addNode'):
        if c04.rname(prog, a, 0) != 'arc_dijkstras::GraphNode':
            E.contracts[a['id']] = Contract(pre=lambda c: [], post=add_node)

    def pre(c):
        n = c.this.f['nodes_'].len
        return [('legal endpoints', And(0 <= c.arg(0), c.arg(0) < n, 0 <= c.arg(1), c.arg(1) < n, c.arg(0) != c.arg(1)))]
    E.contracts[f['id']] = Contract(pre=pre, post=lambda c: c04.added(E, c.this.f['nodes_'], c.this1.f['nodes_'], c.arg(0), c.arg(1), c.arg(2)) + kept(c), result=lambda c: Opaque('edge'))


def add_args(c):
    return dict(state=c.arg(0), dir=c.arg(1), g=c.arg(2).f['nodes_'], g1=c.fin(2).f['nodes_'], dist=c.arg(3), valid=c.arg(4), K=c.arg(5), sym=c.arg(6), dup=c.arg(7))


class Add:
    """the specification of adding a state: a = its arguments, nn = the chosen neighbours,
    pos[k] = the neighbour that edge k of the new node belongs to, where = its inverse"""

    def __init__(self, b, a, nn=None, pos=None, where=None):
        self.b, self.a, self.nn, self.pos, self.where = b, a, nn, pos, where

    def D(self, x):      # the distance the neighbours are chosen by
        b, a = self.b, self.a
        v = b.val(a['g'], x)
        return If(a['dir'] == 0, b.dist(a['dist'], v, a['state']), b.dist(a['dist'], a['state'], v))

    def to_new(self, x):
        b, a = self.b, self.a
        return If(a['sym'], self.D(x), b.dist(a['dist'], b.val(a['g'], x), a['state']))

    def from_new(self, x):
        b, a = self.b, self.a
        return If(a['sym'], self.D(x), b.dist(a['dist'], a['state'], b.val(a['g'], x)))

    def ok(self, x):
        return self.b.valid(self.a['valid'], self.b.val(self.a['g'], x), self.a['state'])

    def chosen(self):
        b, a, nn = self.b, self.a, self.nn
        return knn_facts(b, self.D, nn, a['g'].len, a['g']) + [('K neighbours', nn.len == c09.amin(a['K'], a['g'].len))]

    def joined(self, x):
        return And(at(x) != -1, self.ok(x))

    def isedge(self, es, x, frm, to, w):
        e = edges(self.b.E, es, x)
        return And(e['from_index_'] == frm, e['to_index_'] == to, e['weight_'] == w, e['edge_validity_'] == 2)

    def result(self, g1, upto, cnt):
        """the graph after the neighbours before position upto were joined"""
        b, a = self.b, self.a
        E = b.E
        g = a['g']
        new = g.len
        n0, n1 = b.node(g, i), b.node(g1, i)
        o0, o1, i0, i1 = n0['out_edges_'], n1['out_edges_'], n0['in_edges_'], n1['in_edges_']
        nn = b.node(g1, new)
        old = And(0 <= i, i < new)
        jo = And(self.joined(i), at(i) < upto)
        nb = c09.slot(E, self.nn, Select(self.pos, k))[0]
        pk = Select(self.pos, k)
        kk = And(0 <= k, k < cnt)
        pat = Select(g1.arr, i)
        nbq = c09.slot(E, self.nn, q)[0]
        return [('one more node', g1.len == g.len + 1), ('the new node holds the state', b.P(nn['value_']) == b.P(a['state'])),
                ('other nodes are untouched', FA([i], Implies(And(old, Not(jo)), Select(g1.arr, i) == Select(g.arr, i)), pat)),
                ('values and distances stay', FA([i], Implies(old, And(b.P(n1['value_']) == b.P(n0['value_']), n1['distance_'] == n0['distance_'])), pat)),
                ('a joined node gets an edge to the new one', FA([i], Implies(And(old, jo), And(o1.len == o0.len + 1, self.isedge(o1, o0.len, i, new, self.to_new(i)))), pat)),
                ('a joined node gets an edge from the new one', FA([i], Implies(And(old, jo), And(i1.len == i0.len + 1, self.isedge(i1, i0.len, new, i, self.from_new(i)))), pat)),
                ('earlier out edges stay', FA([i, k], Implies(And(old, 0 <= k, k < o0.len), Select(o1.arr, k) == Select(o0.arr, k)), Select(o1.arr, k))),
                ('earlier in edges stay', FA([i, k], Implies(And(old, 0 <= k, k < i0.len), Select(i1.arr, k) == Select(i0.arr, k)), Select(i1.arr, k))),
                ('the new node has an edge pair per joined neighbour', And(nn['out_edges_'].len == cnt, nn['in_edges_'].len == cnt, cnt >= 0)),
                ('edge pairs belong to joined neighbours', FA([k], Implies(kk, And(0 <= pk, pk < upto, self.ok(nb))), pk)),
                ('edges from the new node', FA([k], Implies(kk, self.isedge(nn['out_edges_'], k, new, nb, self.from_new(nb))), Select(nn['out_edges_'].arr, k), pk)),
                ('edges to the new node', FA([k], Implies(kk, self.isedge(nn['in_edges_'], k, nb, new, self.to_new(nb))), Select(nn['in_edges_'].arr, k), pk)),
                ('each joined neighbour has its edge pair', FA([q], Implies(And(0 <= q, q < upto, self.ok(nbq)), And(0 <= Select(self.where, q), Select(self.where, q) < cnt,
                                                                                                             Select(self.pos, Select(self.where, q)) == q)), Select(self.where, q))),
                ('one edge pair each', FA([k], Implies(kk, Select(self.where, pk) == k), pk))]


def add_post(b, c, ghost):
    a = add_args(c)
    g, g1, ret = a['g'], a['g1'], c.ret
    sp = Add(b, a, *ghost)
    again = And(0 <= ret, ret < g.len)
    out = [('a node index is returned', And(0 <= ret, ret < g1.len)),
           ('an existing node is returned only at distance 0, the roadmap unchanged', Implies(ret != g.len, And(again, Not(a['dup']), sp.D(ret) == 0, c04.same_vec(g1, g)))),
           ('a state at distance 0 is not added again', Implies(And(ret == g.len, Not(a['dup']), a['K'] >= 1), FA([i], Implies(And(0 <= i, i < g.len), sp.D(i) != 0), Select(g.arr, i))))]
    if ghost[0] is not None:
        out += [(nm, Implies(ret == g.len, x)) for nm, x in sp.chosen() + sp.result(g1, sp.nn.len, b.node(g1, g.len)['out_edges_'].len)]
    return out


def weak_post(b, c):
    """what the queries need of adding a state"""
    a = add_args(c)
    g, g1, ret = a['g'], a['g1'], c.ret
    sp = Add(b, a)
    return [('a node index is returned', And(0 <= ret, ret < g1.len)),
            ('at most one node more, holding the state', And(g1.len <= g.len + 1, Implies(g1.len != g.len, And(ret == g.len, b.P(b.val(g1, ret)) == b.P(a['state']))))),
            ('nodes stay', And(g1.len >= g.len, FA([i], Implies(And(0 <= i, i < g.len), b.P(b.val(g1, i)) == b.P(b.val(g, i))), Select(g1.arr, i)))),
            ('the node returned is the state or at distance 0', Or(b.P(b.val(g1, ret)) == b.P(a['state']), And(Not(a['dup']), ret < g.len, sp.D(ret) == 0)))] + b.legal(g1)


@C.unit('AddNodeToRoadmap')
def _(prog):
    E = Engine(prog)
    b = B(prog, E)
    knn = with_knn(prog, E)
    with_graph(prog, E)

    def setup(E, c, st):
        st.ghost['nn'] = None
        st.ghost['pos'] = st.ghost['where'] = K(I, IntVal(0))
        st.ghost['cnt'] = IntVal(0)

    def pre(c):
        return [('direction', Or(c.arg(1) == 0, c.arg(1) == 1))] + b.metric(c.arg(3)) + b.legal(c.arg(2).f['nodes_'])

    def A(L):
        a = dict(state=L.argv(0), dir=L.argv(1), g=E.read(L.entry0, E.top_args[2]).f['nodes_'], dist=L.argv(3), valid=L.argv(4), K=L.argv(5), sym=L.argv(6), dup=L.argv(7))
        return Add(b, a, L['nearest_neighbors'], L.st.ghost['pos'], L.st.ghost['where'])

    def dups(L):
        L.entry0 = E.st0
        x = L['idx']
        v = L['nearest_neighbors']
        return [('position', And(0 <= x, x <= v.len)), ('no neighbour at distance 0 so far', FA([q], Implies(And(0 <= q, q < x), c09.slot(E, v, q)[1] != 0), Select(v.arr, q)))]

    def dists(L):
        L.entry0 = E.st0
        sp = A(L)
        x, v, w = L['idx'], L['nearest_neighbors'], L['nearest_neighbors_distances']
        nb = c09.slot(E, v, q)[0]
        w1, w2 = c09.slot(E, w, q)
        return [('position', And(0 <= x, x <= v.len)), ('size', w.len == v.len),
                ('weights', FA([q], Implies(And(0 <= q, q < x), If(sp.ok(nb), And(w1 == sp.to_new(nb), w2 == sp.from_new(nb)), And(w1 == -1, w2 == -1))), Select(w.arr, q)))]

    def join(L):
        L.entry0 = E.st0
        sp = A(L)
        x = L['idx']
        g1 = E.read(L.st, E.top_args[2]).f['nodes_']
        return [('position', And(0 <= x, x <= L['nearest_neighbors'].len)), ('weights size', L['nearest_neighbors_distances'].len == L['nearest_neighbors'].len),
                ('linkage kept', Implies(c04.opaque(E, sp.a['g']), c04.opaque(E, g1)))] + sp.result(g1, x, L.st.ghost['cnt'])

    def join_step(L):
        x = L.prev['idx']
        L.prev.entry0 = E.st0
        sp = A(L.prev)
        nb = c09.slot(E, sp.nn, x)[0]
        g = L.st.ghost
        yes = sp.ok(nb)
        gp, g1 = [E.read(y.st, E.top_args[2]).f['nodes_'] for y in (L.prev, L)]
        new = sp.a['g'].len
        lem = lambda nm, f: E.lemma(L.st, nm, f)
        lem('the neighbour is an existing node', And(0 <= nb, nb < new, at(nb) == x))
        lem('an invalid edge changes nothing', Implies(Not(yes), And(g1.len == gp.len, g1.arr == gp.arr)))
        lem('only two nodes change', And(g1.len == gp.len, FA([i], Implies(And(i != nb, i != new, 0 <= i, i < g1.len), Select(g1.arr, i) == Select(gp.arr, i)), Select(g1.arr, i))))
        for nm, y, other, w1, w2 in (('neighbour', nb, new, sp.to_new(nb), sp.from_new(nb)), ('new node', new, nb, sp.from_new(nb), sp.to_new(nb))):
            a0, a1 = b.node(gp, y), b.node(g1, y)
            E.leaf_facts(L.st, gp.et, E.S.unpack(gp.et, Select(gp.arr, y)))      # sizes are not negative
            lem(f'{nm}: value and distance stay', And(b.P(a1['value_']) == b.P(a0['value_']), a1['distance_'] == a0['distance_']))
            for fld, frm, to, w in (('out_edges_', y, other, w1), ('in_edges_', other, y, w2)):
                o0, o1 = a0[fld], a1[fld]
                lem(f'{nm}: {fld[:-7]} edge added', Implies(yes, And(o1.len == o0.len + 1, sp.isedge(o1, o0.len, frm, to, w))))
                lem(f'{nm}: {fld[:-7]} edges stay', FA([k], Implies(And(0 <= k, k < o0.len), Select(o1.arr, k) == Select(o0.arr, k)), Select(o1.arr, k)))
        c0 = g['cnt']
        g['where'] = If(yes, Store(g['where'], x, c0), g['where'])
        g['pos'] = If(yes, Store(g['pos'], c0, x), g['pos'])
        g['cnt'] = If(yes, c0 + 1, c0)

    def done(L):
        L.st.ghost['nn'] = L['nearest_neighbors']

    def setup2(E_, c, st):
        setup(E_, c, st)
        E.st0 = st.copy()

    def post(c):
        g = c.st1.ghost
        out = add_post(b, c, (g['nn'], g['pos'], g['where']))
        return out + [(n, x) for n, x in weak_post(b, c)] + [('linkage kept', Implies(c04.opaque(E, c.arg(2).f['nodes_']), c04.opaque(E, c.fin(2).f['nodes_'])))]
    D_ = lambda L: L['nearest_neighbors'].len - L['idx']
    E.verify(b.f, setup=setup2, pre=pre, post=post, loops=[Loop(dups, decreases=D_), Loop(dists, decreases=D_),
                                                          Loop(join, decreases=D_, on_step=join_step, on_exit=done, ghosts=['pos', 'where', 'cnt'])])
    return E


@C.unit('the position of a node among its neighbours is a choice')
def _(prog):
    # C09's guarantee implies the form used above, for positions chosen as: an index of node i in the list, or -1 if there is none
    E = Engine(prog)
    b = B(prog, E)
    f = prog.fn('arc_helpers::GetKNearestNeighborsSerial')
    E.target = 'lemma: position of a neighbour'
    E.verified.add(E.target)
    st = State()
    v = E.havoc(st, prog.ty(f['r']), 'v')
    items = E.havoc(st, prog.ty(f['p'][0]['t']).deref(), 'items')
    D = Function('D', I, RealSort())
    n = items.len
    for _, x in plain_facts(b, D, v, n, items):
        st.assume(x)
    fq = c09.slot(E, v, q)[0]
    fa = c09.slot(E, v, Select(POS, i))[0]
    st.assume(FA([i], at(i) == Select(POS, i), at(i)),
              FA([i], Implies(And(0 <= i, i < n), Or(And(0 <= at(i), at(i) < v.len, c09.slot(E, v, at(i))[0] == i), And(at(i) == -1, FA([q], Implies(And(0 <= q, q < v.len), fq != i), Select(v.arr, q))))), at(i)))
    for nm, x in knn_facts(b, D, v, n, items):
        if nm in ('positions', 'no nearer node is left out'):
            s = st.copy()
            i0 = E.fresh('i', I)
            s.assume(at(i0) == at(i0))
            E.oblige(s, nm, substitute_var(x, i0), 'lemma')
        elif nm == 'positions cover':
            s = st.copy()
            q0 = E.fresh('q', I)
            f0 = c09.slot(E, v, q0)[0]
            s.assume(0 <= q0, q0 < v.len, at(f0) == Select(POS, f0))
            p0 = at(f0)
            s.assume(Or(p0 < q0, p0 == q0, p0 > q0))
            E.lemma(s, 'chosen at its position', And(0 <= p0, p0 < v.len, c09.slot(E, v, p0)[0] == f0))
            E.oblige(s, nm, Select(POS, f0) == q0, 'lemma')
        else:
            E.oblige(st.copy(), nm, x, 'lemma')
    return E


def substitute_var(fa, c):
    return substitute_vars(fa.body(), c)


def with_add(prog, E):
    """AddNodeToRoadmap by (part of) the contract proved above"""
    b = B(prog, E)
    E.contracts[b.f['id']] = Contract(pre=lambda c: [('direction', Or(c.arg(1) == 0, c.arg(1) == 1))] + b.metric(c.arg(3)) + b.legal(c.arg(2).f['nodes_']), post=lambda c: weak_post(b, c),
                                      modifies=lambda c: [c._args[2]])
    return b


@C.unit('ExtendRoadMap, BuildRoadMap')
def _(prog):
    out = []
    for name in ('ExtendRoadMap', 'BuildRoadMap'):
        E = Engine(prog)
        b = with_add(prog, E)
        E.nullary = dict(sampling_fn=lambda v: BoolVal(True), termination_check_fn=lambda v: BoolVal(True))
        o = 0 if name == 'BuildRoadMap' else 1
        ok = lambda c, v: E.call_ufun(State(), c.arg(o + 2) if hasattr(c, 'arg') else c.argv(o + 2), [(b.vt, v)], b.bl)

        def facts(c, g0, g1):
            n0 = IntVal(0) if g0 is None else g0.len
            r = [('states added are valid', FA([i], Implies(And(n0 <= i, i < g1.len), ok(c, b.val(g1, i))), Select(g1.arr, i)))] + b.legal(g1)
            if g0 is not None:
                r.append(('nodes stay', And(g1.len >= n0, FA([i], Implies(And(0 <= i, i < n0), b.P(b.val(g1, i)) == b.P(b.val(g0, i))), Select(g1.arr, i)))))
            return r

        def inv(L):
            g0 = None if o == 0 else E.read(E.st0, E.top_args[0]).f['nodes_']
            return facts(L, g0, L['roadmap'].f['nodes_'])

        def setup(E_, c, st):
            E_.st0 = st.copy()
        E.verify(prog.fn(PRM + name), setup=setup, pre=lambda c: b.metric(c.arg(o + 1)) + ([] if o == 0 else b.legal(c.arg(0).f['nodes_'])),
                 post=lambda c: facts(c, None if o == 0 else c.arg(0).f['nodes_'], c.ret.f['nodes_'] if o == 0 else c.fin(0).f['nodes_']), loops=[Loop(inv)])
        out.append(E)
    return out


def states(b, path, ix, g):
    return [('one state per node', path.len == ix.len), ('states of the nodes', FA([j], Implies(And(0 <= j, j < ix.len), Select(path.arr, j) == b.P(b.val(g, Select(ix.arr, j)))), Select(path.arr, j)))]


def in_graph(ix, g):
    return FA([j], Implies(And(0 <= j, j < ix.len), And(0 <= Select(ix.arr, j), Select(ix.arr, j) < g.len)), Select(ix.arr, j))


@C.unit('ExtractSolutionPath')
def _(prog):
    E = Engine(prog)
    b = B(prog, E)
    g = lambda c: c.arg(0).f['nodes_']

    def inv(L):
        x, p, ix, n = L['idx'], L['solution_path'], L.argv(1), L.argv(0).f['nodes_']
        return [('position', And(0 <= x, x <= ix.len, p.len == x)), ('states so far', FA([j], Implies(And(0 <= j, j < x), Select(p.arr, j) == b.P(b.val(n, Select(ix.arr, j)))), Select(p.arr, j)))]
    E.verify(prog.fn(PRM + 'ExtractSolutionPath'), pre=lambda c: [('indices name nodes', in_graph(c.arg(1), g(c)))], post=lambda c: states(b, c.ret, c.arg(1), g(c)),
             loops=[Loop(inv, decreases=lambda L: L.argv(1).len - L['idx'])])
    return E


def with_extract(prog, E, b):
    def post(c):
        c.st1.ghost['ix'] = c.arg(1)
        return states(b, c.ret, c.arg(1), c.arg(0).f['nodes_'])
    E.contracts[prog.fn(PRM + 'ExtractSolutionPath')['id']] = Contract(pre=lambda c: [('indices name nodes', in_graph(c.arg(1), c.arg(0).f['nodes_']))], post=post)


@C.unit('UpdateRoadMapEdges')
def _(prog):
    E = Engine(prog)
    b = B(prog, E)
    f = prog.fn(PRM + 'UpdateRoadMapEdges')
    lf = prog.fn(c04.G + 'checkGraphLinkage')
    E.contracts[lf['id']] = Contract(pre=lambda c: [], post=lambda c: [('true exactly when every edge is linked at both ends', c.ret == c04.linked(E, c.this.f['nodes_']))], modifies=lambda c: [])

    def W(c, g, x, y):
        a = c.arg if hasattr(c, 'arg') else c.argv
        return If(b.valid(a(1), b.val(g, x), b.val(g, y)), b.dist(a(2), b.val(g, x), b.val(g, y)), E.INF)

    def facts(c, g0, g1, outdone, indone):
        """g1 is g0 but for the weights of the edges picked out by outdone(t, k) and indone(t, k, from)"""
        n0, n1 = b.node(g0, t), b.node(g1, t)
        T = And(0 <= t, t < g0.len)
        pat = Select(g1.arr, t)
        out = [('no node added', g1.len == g0.len), ('values and distances stay', FA([t], Implies(T, And(b.P(n1['value_']) == b.P(n0['value_']), n1['distance_'] == n0['distance_'])), pat))]
        for fld in ('out_edges_', 'in_edges_'):
            e0, e1 = n0[fld], n1[fld]
            a0, a1 = edges(E, e0, k), edges(E, e1, k)
            g = And(T, 0 <= k, k < e0.len)
            p2 = Select(e1.arr, k)
            out.append((f'no {fld[:-7]} edge added', FA([t], Implies(T, e1.len == e0.len), pat)))
            out.append((f'ends of {fld[:-7]} edges stay', FA([t, k], Implies(g, And(*[a1[z] == a0[z] for z in ('from_index_', 'to_index_', 'edge_validity_')])), p2)))
            fr = a0['from_index_']
            if fld == 'out_edges_':
                out.append(('weights of out edges', FA([t, k], Implies(g, a1['weight_'] == If(outdone(t, k), W(c, g0, t, a0['to_index_']), a0['weight_'])), p2)))
            else:
                out.append(('weights of in edges', FA([t, k], Implies(g, a1['weight_'] == If(indone(t, k, fr), W(c, g0, fr, t), a0['weight_'])), p2)))
        return out

    g0 = lambda: E.read(E.st0, E.top_args[0]).f['nodes_']
    now = lambda L: E.read(L.st, E.top_args[0]).f['nodes_']

    def setup(E_, c, st):
        E_.st0 = st.copy()
        st.ghost['done'] = K(I, BoolVal(False))

    def outer(L):
        x = L['current_node_index']
        return [('position', And(0 <= x, x <= g0().len))] + facts(L, g0(), now(L), lambda t, k: t < x, lambda t, k, fr: fr < x)

    def inner_facts(L, m, n=None, o=None):
        x, done = L['current_node_index'], L.st.ghost['done']
        return facts(L, g0(), now(L), lambda t, k: Or(t < x, And(t == x, k < m)), lambda t, k, fr: Or(fr < x, And(fr == x, Or(Select(done, t), *([] if o is None else [And(t == o, k < n)])))))

    def mid(L):
        x, m = L['current_node_index'], L['out_edge_idx']
        es = b.node(g0(), x)['out_edges_']
        return [('positions', And(0 <= x, x < g0().len, 0 <= m, m <= es.len)),
                ('targets done', FA([k], Implies(And(0 <= k, k < m), Select(L.st.ghost['done'], edges(E, es, k)['to_index_'])), Select(es.arr, k)))] + inner_facts(L, m)

    def inner(L):
        x, m, n = L['current_node_index'], L['out_edge_idx'], L['in_edge_idx']
        es = b.node(g0(), x)['out_edges_']
        o = edges(E, es, m)['to_index_']
        return [('positions', And(0 <= x, x < g0().len, 0 <= m, m < es.len, 0 <= n, n <= b.node(g0(), o)['in_edges_'].len)), ('other node', And(L['other_node_idx'] == o, 0 <= o, o < g0().len, o != x)),
                ('weight', L['updated_weight'] == W(L, g0(), x, o)),
                ('targets done', FA([k], Implies(And(0 <= k, k < m), Select(L.st.ghost['done'], edges(E, es, k)['to_index_'])), Select(es.arr, k)))] + inner_facts(L, m + 1, n, o)

    def mid_setup(L):
        L.st.ghost['done'] = K(I, BoolVal(False))

    def mid_exit(L):
        x = L['current_node_index']
        ins = b.node(g0(), t)['in_edges_']
        fr = edges(E, ins, k)['from_index_']
        E.lemma(L.st, 'every node with an edge from here was reached', FA([t, k], Implies(And(0 <= t, t < g0().len, 0 <= k, k < ins.len, fr == x), Select(L.st.ghost['done'], t)), Select(ins.arr, k)))

    def inner_exit(L):
        L.st.ghost['done'] = Store(L.st.ghost['done'], L['other_node_idx'], BoolVal(True))
    yes = lambda *a: BoolVal(True)
    E.verify(f, setup=setup, pre=lambda c: [], throws=lambda c: Not(c04.linked(E, c.arg(0).f['nodes_'])), throw_post=lambda c: [('roadmap unchanged', c04.same_vec(c.fin(0).f['nodes_'], c.arg(0).f['nodes_']))],
             post=lambda c: facts(c, c.arg(0).f['nodes_'], c.fin(0).f['nodes_'], yes, yes),
             loops=[Loop(outer, decreases=lambda L: g0().len - L['current_node_index']),
                    Loop(mid, decreases=lambda L: b.node(g0(), L['current_node_index'])['out_edges_'].len - L['out_edge_idx'], setup=mid_setup, on_exit=mid_exit, ghosts=['done']),
                    Loop(inner, decreases=lambda L: b.node(g0(), L['other_node_idx'])['in_edges_'].len - L['in_edge_idx'], on_exit=inner_exit)])
    return E


def placed(b, c, g, x, state, dup, dist, to_roadmap):
    """node x holds the state or lies at distance 0 of it"""
    v = b.val(g, x)
    d = b.dist(dist, state, v) if to_roadmap else b.dist(dist, v, state)
    return And(0 <= x, x < g.len, Or(b.P(v) == b.P(state), And(Not(dup), d == 0)))


def kept_nodes(b, g0, g1):
    return [('earlier nodes stay', And(g1.len >= g0.len, FA([i], Implies(And(0 <= i, i < g0.len), b.P(b.val(g1, i)) == b.P(b.val(g0, i))), Select(g1.arr, i))))]


def dijkstra_facts(b, E, g, D, P, s, order):
    plus = lambda x, y: E.farith(State(), '+', x, y, None)
    es = b.node(g, t)['in_edges_']
    e = edges(E, es, k)
    p = Select(P.arr, i)
    ps = b.node(g, p)['in_edges_']
    pe = edges(E, ps, k)
    return [('sizes', And(D.len == g.len, P.len == g.len)), ('start', And(0 <= s, s < g.len, Select(D.arr, s) == 0, Select(P.arr, s) == s)),
            ('no distance is above the feasible minimum', FA([t, k], Implies(And(0 <= t, t < g.len, 0 <= k, k < es.len), Select(D.arr, e['from_index_']) <= plus(Select(D.arr, t), e['weight_'])), Select(es.arr, k))),
            ('previous nodes lead along edges that account for the distance',
             FA([i], Implies(And(0 <= i, i < g.len), And(-1 <= p, p < g.len, (p == -1) == (Select(D.arr, i) == E.INF), 0 <= Select(D.arr, i), Select(D.arr, i) <= E.INF,
                                                         Implies(And(p != -1, i != s), Exists([k], And(0 <= k, k < ps.len, pe['from_index_'] == i, Select(D.arr, i) == plus(Select(D.arr, p), pe['weight_'])))))), p)),
            ('following previous nodes ends at the start', c05.previous_order(order, P.arr, s, g.len))]


@C.unit('QueryPathAndAddNodesMultiStartSingleGoal')
def _(prog):
    E = Engine(prog, ext_inf=True)
    b = with_add(prog, E)
    with_extract(prog, E, b)
    df = prog.fn('arc_dijkstras::SimpleDijkstrasAlgorithm::PerformDijkstrasAlgorithm')
    plus = lambda x, y: E.farith(State(), '+', x, y, None)

    def dpost(c):
        g = c.arg(0).f['nodes_']
        D, P = c.ret.f['second'].f['second'], c.ret.f['second'].f['first']
        order = E.fresh('order', ArraySort(I, I))
        c.st1.ghost.update(D=D, P=P, g=g, goal=c.arg(1), ord=order)
        return dijkstra_facts(b, E, g, D, P, c.arg(1), order)
    E.contracts[df['id']] = Contract(pre=lambda c: b.legal(c.arg(0).f['nodes_']) + [('start in range', And(0 <= c.arg(1), c.arg(1) < c.arg(0).f['nodes_'].len))], post=dpost)
    R0 = lambda: E.read(E.st0, E.top_args[2]).f['nodes_']
    R = lambda L: E.read(L.st, E.top_args[2]).f['nodes_']

    def starts(L):
        x, S, sx = L['start_idx'], L.argv(0), L['start_node_indices']
        st = E.S.unpack(S.et, Select(S.arr, j))
        return [('position', And(0 <= x, x <= S.len, sx.len == S.len)),
                ('starts placed', FA([j], Implies(And(0 <= j, j < x), placed(b, None, R(L), Select(sx.arr, j), st, L.argv(7), L.argv(4), True)), Select(sx.arr, j)))] + kept_nodes(b, R0(), R(L)) + b.legal(R(L))

    def best(L):
        x, sx, bd, bi = L['start_idx'], L['start_node_indices'], L['best_start_node_distance'], L['best_start_node_index']
        D = L.st.ghost['D']
        at_ = lambda y: Select(D.arr, Select(sx.arr, y))
        return [('position', And(0 <= x, x <= L.argv(0).len)), ('none nearer so far', FA([j], Implies(And(0 <= j, j < x), bd <= at_(j)), Select(sx.arr, j))),
                ('the best so far', Or(And(bd == E.INF, bi == -1), And(bd < E.INF, Exists([j], And(0 <= j, j < x, Select(sx.arr, j) == bi, at_(j) == bd)))))]

    def chosen(L):
        L.st.ghost['sx'] = L['start_node_indices']

    def hop(c_ghost, ix, x, y):
        """nodes x, y are joined by an edge that accounts for the distance, or both are the goal"""
        g, D, P, goal = [c_ghost[z] for z in ('g', 'D', 'P', 'goal')]
        ps = b.node(g, y)['in_edges_']
        pe = edges(E, ps, k)
        return Or(And(x == goal, y == goal), Exists([k], And(0 <= k, k < ps.len, pe['from_index_'] == x, Select(D.arr, x) == plus(Select(D.arr, y), pe['weight_']))))

    def walk(L):
        ix, prev = L['solution_path_indices'], L['previous_index']
        gh = L.st.ghost
        P, goal = gh['P'], gh['goal']
        a = lambda x: Select(ix.arr, x)
        last = a(ix.len - 1)
        return [('path so far', And(ix.len >= 1, a(0) == L['best_start_node_index'], in_graph(ix, gh['g']))), ('next', And(prev == Select(P.arr, last), prev >= 0, prev < gh['g'].len)),
                ('goal only first', Or(last != goal, ix.len == 1)), ('distances are finite', Select(gh['D'].arr, last) < E.INF),
                ('hops', FA([j], Implies(And(0 <= j, j < ix.len - 1), hop(gh, ix, a(j), Select(ix.arr, j + 1))), a(j)))]

    def setup(E_, c, st):
        E_.st0 = st.copy()
        st.ghost['sx'] = st.ghost['ix'] = None

    def post(c):
        gh = c.st1.ghost
        g, D, P, goal, sx, ix = [gh[z] for z in ('g', 'D', 'P', 'goal', 'sx', 'ix')]
        path, cost = c.ret.f['first'], c.ret.f['second']
        S = c.arg(0)
        R1 = c.fin(2).f['nodes_']
        st = E.S.unpack(S.et, Select(S.arr, j))
        out = kept_nodes(b, c.arg(2).f['nodes_'], R1) + b.legal(R1)
        out += [('the goal is placed', placed(b, c, R1, goal, c.arg(1), c.arg(7), c.arg(4), False)),
                ('the starts are placed', FA([j], Implies(And(0 <= j, j < S.len), placed(b, c, R1, Select(sx.arr, j), st, c.arg(7), c.arg(4), True)), Select(sx.arr, j)))]
        out += [('shortest distances: ' + n, f) for n, f in dijkstra_facts(b, E, R1, D, P, goal, gh['ord'])]
        out += [('no start is nearer', FA([j], Implies(And(0 <= j, j < S.len), cost <= Select(D.arr, Select(sx.arr, j))), Select(sx.arr, j))),
                ('without a path: empty, infinite cost', Implies(cost == E.INF, path.len == 0)), ('cost', cost <= E.INF)]
        if ix is not None:
            a = lambda x: Select(ix.arr, x)
            out += [('nodes', And(ix.len >= 1, in_graph(ix, R1)))] + states(b, path, ix, R1)
            out += [('the path leads from the nearest start', Exists([j], And(0 <= j, j < S.len, Select(sx.arr, j) == a(0), Select(D.arr, a(0)) == cost))),
                    ('to the goal', a(ix.len - 1) == goal), ('along edges that account for the cost', FA([j], Implies(And(0 <= j, j < ix.len - 1), hop(gh, ix, a(j), Select(ix.arr, j + 1))), a(j)))]
        else:
            out.append(('a path is left out only if there is none', cost == E.INF))
        return out
    E.verify(prog.fn(PRM + 'QueryPathAndAddNodesMultiStartSingleGoal'), setup=setup, pre=lambda c: b.metric(c.arg(4)) + b.legal(c.arg(2).f['nodes_']), post=post,
             loops=[Loop(starts, decreases=lambda L: L.argv(0).len - L['start_idx']), Loop(best, decreases=lambda L: L.argv(0).len - L['start_idx'], on_exit=chosen),
                    Loop(walk, decreases=lambda L: Select(L.st.ghost['ord'], Select(L['solution_path_indices'].arr, L['solution_path_indices'].len - 1)))])
    return E


@C.unit('queries by A*')
def _(prog):
    out = []
    for name, astar in (('QueryPathAndAddNodesSingleStartSingleGoal', 'PerformAstar'), ('LazyQueryPathAndAddNodesSingleStartSingleGoal', 'PerformLazyAstar')):
        E = Engine(prog)
        b = with_add(prog, E)
        with_extract(prog, E, b)

        def search(E, st, fn, obj, args, e, astar=astar):
            """the search of C06: refuses equal start and goal, else gives a list of nodes and a cost"""
            vals = [E.rv(st, a) for a in args]
            g = vals[0].f['nodes_']
            fns = [v.name for v in vals[3:-1] if isinstance(v, UFun)]
            want = ['distance_fn'] if astar == 'PerformAstar' else ['edge_validity_check_fn', 'distance_fn', 'distance_fn']
            E.oblige(st, 'the search uses the functions given', BoolVal(fns == want and len(vals) == 4 + len(want)), 'pre', e.get('l'))
            E.oblige(st, 'the search gets the queue option', vals[-1] == E.read(E.st0, E.top_args[8]), 'pre', e.get('l'))
            for nm, f in [('start and goal in range', And(0 <= vals[1], vals[1] < g.len, 0 <= vals[2], vals[2] < g.len))] + b.legal(g):
                E.oblige(st, 'search: ' + nm, f, 'pre', e.get('l'))
            bad, good = st.copy(), st.copy()
            bad.assume(vals[1] == vals[2])
            good.assume(vals[1] != vals[2])
            rt = prog.ty(fn['r'])
            r = E.havoc(good, rt, 'astar')
            good.assume(in_graph(r.f['first'], g))
            good.ghost['search'] = (g, vals[1], vals[2], r)
            bad.ghost['search'] = (g, vals[1], vals[2], None)
            from vc import Thrown
            return [(bad, Thrown('start is goal')), (good, r)]
        E.extra_lib['arc_dijkstras::SimpleGraphAstar::' + astar] = search

        def setup(E_, c, st):
            E_.st0 = st.copy()

        def common(c):
            g, s, goal, r = c.st1.ghost['search']
            R0, R1 = c.arg(2).f['nodes_'], c.fin(2).f['nodes_']
            return kept_nodes(b, R0, R1) + b.legal(R1) + [('the roadmap with the added nodes is searched', And(g.len == R1.len, g.arr == R1.arr)),
                                                          ('from the start', placed(b, c, R1, s, c.arg(0), c.arg(7), c.arg(4), True)), ('to the goal', placed(b, c, R1, goal, c.arg(1), c.arg(7), c.arg(4), False))]

        def post(c):
            g, s, goal, r = c.st1.ghost['search']
            return common(c) + states(b, c.ret.f['first'], r.f['first'], g) + [('cost', c.ret.f['second'] == r.f['second'])]

        def copy(L):
            g, s, goal, r = L.st.ghost['search']
            x, p, ix = L['idx'], L['solution_path'], r.f['first']
            return [('position', And(0 <= x, x <= ix.len, p.len == x)), ('states so far', FA([j], Implies(And(0 <= j, j < x), Select(p.arr, j) == b.P(b.val(g, Select(ix.arr, j)))), Select(p.arr, j)))]
        E.verify(prog.fn(PRM + name), setup=setup, pre=lambda c: b.metric(c.arg(4)) + b.legal(c.arg(2).f['nodes_']), post=post, throws=lambda c: c.st1.ghost['search'][1] == c.st1.ghost['search'][2], throw_post=common,
                 loops=[Loop(copy, decreases=lambda L: L.st.ghost['search'][3].f['first'].len - L['idx'])] if astar == 'PerformAstar' else [])
        out.append(E)
    return out


def by_name(prog, E, f, fargs, name):
    """a query by an unknown function of its arguments; function arguments must be the caller's"""
    rt = prog.ty(f['r'])

    def result(c):
        xs = []
        for x in range(len(f['p'])):
            v = c.arg(x)
            if isinstance(v, UFun):
                E.oblige(c.st1, 'the query gets the functions given', BoolVal(v.name == fargs[x]), 'pre')
                continue
            xs.append(E.S.pack(prog.ty(f['p'][x]['t']).deref(), v))
        F = Function(name, *[x.sort() for x in xs], E.S.sort(rt))
        return E.S.unpack(rt, F(*xs))
    return result


@C.unit('queries on a copy of the roadmap')
def _(prog):
    out = []
    for name in ('QueryPathMultiStartSingleGoal', 'QueryPathSingleStartSingleGoal', 'LazyQueryPathSingleStartSingleGoal'):
        E = Engine(prog)
        inner = prog.fn(PRM + name.replace('Path', 'PathAndAddNodes', 1))
        F = by_name(prog, E, inner, {3: 'edge_validity_check_fn', 4: 'distance_fn'}, 'query')
        E.contracts[inner['id']] = Contract(pre=lambda c: [], post=lambda c: [], result=F)
        f = prog.fn(PRM + name)

        def post(c, f=f):
            xs = [E.S.pack(prog.ty(p['t']).deref(), c.arg(x)) for x, p in enumerate(f['p']) if not isinstance(c.arg(x), UFun)]
            rt = prog.ty(f['r'])
            Q = Function('query', *[x.sort() for x in xs], E.S.sort(rt))
            return [('the result is that of the query on a copy', E.S.pack(rt, c.ret) == Q(*xs)), ('the roadmap given is unchanged', c04.same_vec(c.fin(2).f['nodes_'], c.arg(2).f['nodes_']))]
        E.verify(f, pre=lambda c: [], post=post)
        out.append(E)
    return out


@C.unit('QueryPathMultiStartMultiGoal')
def _(prog):
    E = Engine(prog, ext_inf=True)
    b = B(prog, E)
    inner = prog.fn(PRM + 'QueryPathMultiStartSingleGoal')
    f = prog.fn(PRM + 'QueryPathMultiStartMultiGoal')
    rt = prog.ty(f['r'])
    E.contracts[inner['id']] = Contract(pre=lambda c: [], post=lambda c: [('cost', c.ret.f['second'] <= E.INF)], result=by_name(prog, E, inner, {3: 'edge_validity_check_fn', 4: 'distance_fn'}, 'query'))

    def answer(c, x):
        """the answer for goal number x"""
        a = c.arg if hasattr(c, 'arg') else c.argv
        xs = [E.S.pack(prog.ty(p['t']).deref(), a(y)) if y != 1 else Select(a(1).arr, x) for y, p in enumerate(f['p']) if not isinstance(a(y), UFun)]
        return Function('query', *[z.sort() for z in xs], E.S.sort(rt))(*xs)
    cost = lambda v: E.S.unpack(rt, v).f['second']

    def fill(L):
        x, ps = L['goal_idx'], L['possible_solutions']
        return [('position', And(0 <= x, x <= L.argv(1).len, ps.len == L.argv(1).len)), ('answers so far', FA([j], Implies(And(0 <= j, j < x), And(Select(ps.arr, j) == answer(L, j), cost(answer(L, j)) <= E.INF)), Select(ps.arr, j)))]

    def best(L):
        x, ps, bd, bi = L['goal_idx'], L['possible_solutions'], L['best_solution_distance'], L['best_solution_index']
        return [('position', And(0 <= x, x <= L.argv(1).len)), ('none better so far', FA([j], Implies(And(0 <= j, j < x), bd <= cost(Select(ps.arr, j))), Select(ps.arr, j))),
                ('the best so far', Or(And(bd == E.INF, bi == -1), And(bd < E.INF, 0 <= bi, bi < x, cost(Select(ps.arr, bi)) == bd)))]

    def post(c):
        n = c.arg(1).len
        r = c.ret.f['second']
        return [('the answer for one of the goals, or none', Or(And(c.ret.f['first'].len == 0, r == E.INF), Exists([j], And(0 <= j, j < n, E.S.pack(rt, c.ret) == answer(c, j), r < E.INF)))),
                ('no goal is nearer', FA([j], Implies(And(0 <= j, j < n), r <= cost(answer(c, j))), answer(c, j)))]
    E.verify(f, pre=lambda c: [], post=post, loops=[Loop(fill, decreases=lambda L: L.argv(1).len - L['goal_idx']), Loop(best, decreases=lambda L: L.argv(1).len - L['goal_idx'])])
    return E


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c28.cpp')):
    C.cpp('c28.cpp', secs=(8, 60))

if __name__ == '__main__':
    run(C)
