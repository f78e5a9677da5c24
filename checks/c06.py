import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State

TU = '''#include "/repo/include/arc_utilities/dijkstras.hpp"
struct Thing { int id; };
inline void use() { using namespace arc_dijkstras; Graph<Thing> g; typedef SimpleGraphAstar<Thing> S;
std::function<bool(const Graph<Thing>&, const GraphEdge&)> a; std::function<double(const Graph<Thing>&, const GraphEdge&)> b;
std::function<bool(const Thing&, const Thing&)> c; std::function<double(const Thing&, const Thing&)> h;
S::PerformLazyAstar(g, 0, 1, a, b, h, true); S::PerformLazyAstar(g, 0, 1, c, h, h, true); S::PerformAstar(g, 0, 1, h, true);
std::function<std::vector<int64_t>(const int64_t)> gen; std::function<bool(const int64_t, const int64_t)> v; std::function<double(const int64_t, const int64_t)> w;
arc_helpers::GenericAstarSearch(0, 1, gen, v, w, w, true);
}
'''
C = Check('C06', tus=dict(main=TU), proof_scope='the three graph searches and the generic search, partial correctness (termination of the search loop is left to the bounded run; termination of path extraction is proved)',
          assumptions=['callbacks are pure; costs of valid edges are at least 0',
                       'a finite set on which following backpointers strictly decreases (cost, time of last update) has an integer rank that decreases',
                       'a property that fails at the end of a path first fails at some position (well-ordering)',
                       'sums of costs are finite, rounding is ignored'])
I, R = IntSort(), RealSort()
rank = Function('rank', I, I)
hasedge, ew = Function('has_edge', I, I, BoolSort()), Function('cheapest_edge', I, I, R)
pn, pk = Function('path_node', I, I), Function('path_edge', I, I)
gs = Function('path_cost', I, R)
H, m = Bool('a_path_with_admissible_heuristic'), Int('path_len')
i, j, k, q, u, v = Ints('i j k q u v')
plus = None


class Spec:
    """the search problem: deg(u), child(u, k), valid(u, k), wt(u, k), h(v), isnode(v), start, goal"""


def xs(E, X):
    et = X.ty.args[1]
    f = lambda x: E.S.unpack(et, Select(X.val, x)).f
    return (lambda x: Select(X.dom, x)), (lambda x: f(x)['first']), (lambda x: f(x)['second'])


def qe(E, Q, x):
    f = E.S.unpack(Q.ty.args[0], Select(Q.arr, x)).f
    return f['node_id_'], f['backpointer_'], f['cost_to_come_'], f['value_']


def problem(P):
    """edges lead to nodes, costs, and the hypothetical path"""
    edge = And(P.isnode(u), 0 <= k, k < P.deg(u), P.valid(u, k))
    return [('start and goal', And(P.isnode(P.start), P.isnode(P.goal))),
            ('edges', FA([u, k], Implies(And(P.isnode(u), 0 <= k, k < P.deg(u)), P.isnode(P.child(u, k))), P.pat(u, k))),
            ('definition of the edge relation', edge_def()(P)),
            ('costs at least 0', FA([u, k], Implies(edge, P.wt(u, k) >= 0), P.pat(u, k))),
            ('nodes are not negative', FA([u], Implies(P.isnode(u), u >= 0))) if P.generic else ('sizes', BoolVal(True)),
            ('path', Implies(H, And(m >= 1, pn(0) == P.start, pn(m) == P.goal, gs(0) == 0, P.h(P.goal) >= 0,
                                    FA([j], Implies(And(0 <= j, j < m), And(P.isnode(pn(j)), 0 <= pk(j), pk(j) < P.deg(pn(j)), P.valid(pn(j), pk(j)), P.child(pn(j), pk(j)) == pn(j + 1),
                                                                           gs(j + 1) == P.plus(gs(j), P.wt(pn(j), pk(j))))), pn(j)),
                                    FA([j], Implies(And(0 <= j, j <= m), And(P.plus(gs(j), P.h(pn(j))) <= gs(m), gs(j) >= 0, gs(j) <= gs(m))), pn(j)))))]


def edge_def():
    """hasedge(p, x): a valid edge leads from p to x; ew(p, x): the cost of the cheapest one (only this half of the definition is needed)"""
    return lambda P: FA([u, k], Implies(And(P.isnode(u), 0 <= k, k < P.deg(u), P.valid(u, k)), And(hasedge(u, P.child(u, k)), ew(u, P.child(u, k)) <= P.wt(u, k), ew(u, P.child(u, k)) >= 0)), P.pat(u, k))


def via(P, b, x, c, strict):
    """a valid edge from b (with cost to come cb) to x accounts for cost c"""
    p, cb = b
    return And(hasedge(p, x), cb + ew(p, x) <= c, ew(p, x) >= 0, Or(cb + ew(p, x) < c, strict))


def chain(P, E, X, T):
    inX, xb, xc = xs(E, X)
    p = xb(v)
    return And(p >= 0, inX(p), P.isnode(p), via(P, (p, xc(p)), v, xc(v), Select(T, p) < Select(T, v)))


def invariant(P, L, cur=None, pos=None):
    E = P.E
    X, Q = L['explored'], L['queue']
    QM = L['queue_members_map']
    T, clk = L.st.ghost['T'], L.st.ghost['clock']
    inX, xb, xc = xs(E, X)
    id, bp, cost, val = qe(E, Q, q)
    s, g = P.start, P.goal
    c_ = P.plus(xc(u), P.wt(u, k))
    ch = P.child(u, k)
    first = And(inX(s), xb(s) == -1, xc(s) == 0)
    id0, bp0, cost0, val0 = qe(E, Q, IntVal(0))
    if cur is None:
        first = Or(first, And(FA([v], Not(inX(v)), inX(v)), Q.len == 1, id0 == s, bp0 == -1, cost0 == 0))
    part = [] if cur is None else [Or(u != cur, k < pos)]
    return [('start first', first), ('goal not expanded', Not(inX(g))),
            ('expanded nodes', FA([v], Implies(inX(v), And(P.isnode(v), xc(v) >= 0, Select(T, v) <= clk, inX(s), Implies(v != s, chain(P, E, X, T)))), inX(v))),
            ('queued nodes', FA([q], Implies(And(0 <= q, q < Q.len), And(P.isnode(id), cost >= 0, val == P.plus(cost, P.h(id)),
                                                                       Or(And(id == s, bp == -1, cost == 0),
                                                                          And(bp >= 0, inX(bp), P.isnode(bp), inX(s), via(P, (bp, xc(bp)), id, cost, BoolVal(True)))))), Select(Q.arr, q))),
            ('edges of expanded nodes are covered', FA([u, k], Implies(And(inX(u), 0 <= k, k < P.deg(u), P.valid(u, k), *part),
                                                                      Or(And(inX(ch), xc(ch) <= c_), Exists([q], And(0 <= q, q < Q.len, id == ch, cost <= c_)))), P.pat(u, k))),
            ('queue members', FA([v], Implies(Select(QM.dom, v), And(P.limit, Exists([q], And(0 <= q, q < Q.len, id == v, cost <= Select(QM.val, v))))), Select(QM.dom, v)))]


def least(P, L, X):
    """well-ordering: the first position of the path that is not expanded within its cost"""
    E = P.E
    inX, xb, xc = xs(E, X)
    J = E.fresh('J', I)
    ok = lambda x: And(inX(pn(x)), xc(pn(x)) <= gs(x))
    L.st.assume(Implies(And(m >= 1, Not(ok(m))), And(0 <= J, J <= m, Not(ok(J)), FA([j], Implies(And(0 <= j, j < J), ok(j)), pn(j)))))
    return J


def frontier(P, L, X, Q, guard):
    E = P.E
    J = least(P, L, X)
    inX, xb, xc = xs(E, X)
    id, bp, cost, val = qe(E, Q, q)
    E.lemma(L.st, 'the first open path node follows an expanded one', Implies(And(H, guard), Or(J == 0, And(inX(pn(J - 1)), xc(pn(J - 1)) <= gs(J - 1), P.child(pn(J - 1), pk(J - 1)) == pn(J)))))
    E.lemma(L.st, 'the path crosses the queue', Implies(And(H, guard), Exists([q], And(0 <= q, q < Q.len, id == pn(J), cost <= gs(J), val <= gs(m)))))


def search_loops(P, child_loop_pos):
    E = P.E

    def setup(E_, c, st):
        st.ghost['T'] = K(I, IntVal(0))
        st.ghost['clock'] = IntVal(0)
        P.bind(c, st)

    def body(L):
        frontier(P, L, L['explored'], L['queue'], BoolVal(True))

    def on_exit(L):
        X = L['explored']
        inX, xb, xc = xs(E, X)
        T = L.st.ghost['T']
        T2 = If(inX(P.goal), Store(T, P.goal, L.st.ghost['clock'] + 1), T)
        E.lemma(L.st, 'backpointers decrease (cost, time)', FA([v], Implies(And(inX(v), v != P.start), chain(P, E, X, T2)), inX(v)))
        L.st.assume(FA([v], Implies(And(inX(v), v != P.start), rank(xb(v)) < rank(v)), inX(v)), FA([v], rank(v) >= 0, rank(v)))
        frontier(P, L, X, L['queue'], Not(inX(P.goal)))
        E.lemma(L.st, 'found if there is a path', Implies(H, inX(P.goal)))
        E.lemma(L.st, 'cheapest', Implies(H, xc(P.goal) <= gs(m)))
        L.st.ghost['X'] = X

    def inner(L):
        X = L['explored']
        inX, xb, xc = xs(E, X)
        cur, pos = P.current(L)
        return invariant(P, L, cur, pos) + [('position', And(0 <= pos, pos <= P.deg(cur))), ('expanding', And(inX(cur), P.isnode(cur), xc(cur) == P.curcost(L), cur != P.goal))]

    def inner_setup(L):
        g = L.st.ghost
        g['T'], g['clock'] = Store(g['T'], P.current(L)[0], g['clock'] + 1), g['clock'] + 1

    def step(L):
        cur, pos = P.current(L.prev)
        Q0, Q1 = L.prev['queue'], L['queue']
        id, bp, cost, val = qe(E, Q1, Q0.len)
        inX, xb, xc = xs(E, L['explored'])
        E.lemma(L.st, 'at most one entry is queued, for the edge considered', Or(And(Q1.len == Q0.len, Q1.arr == Q0.arr), And(Q1.len == Q0.len + 1, P.valid(cur, pos), id == P.child(cur, pos), bp == cur,
                                                                                cost == xc(cur) + P.wt(cur, pos), val == cost + P.h(id), P.wt(cur, pos) >= 0, P.isnode(id))))

    return setup, [Loop(lambda L: invariant(P, L), on_body=body, on_exit=on_exit, ghosts=['T', 'clock']),
                   Loop(inner, decreases=lambda L: P.deg(P.current(L)[0]) - P.current(L)[1], setup=inner_setup, on_step=step)]


def search_post(P, c):
    E = P.E
    path, cost = c.ret.f['first'], c.ret.f['second']
    a = lambda x: Select(path.arr, x)
    X = c.st1.ghost['X']
    inX, xb, xc = xs(E, X)
    return [('a path is found exactly if the cost is that of the goal', Or(And(path.len == 0, cost == E.INF, Not(H)), path.len >= 2)),
            ('the path leads from the start to the goal', Implies(path.len > 0, And(a(0) == P.start, a(path.len - 1) == P.goal))),
            # costs xc along the path: 0 at the start, growing by at least the edge cost, the reported cost at the goal
            ('the path follows valid edges whose costs add up to at most the reported cost',
             Implies(path.len > 0, And(xc(P.start) == 0, xc(P.goal) == cost,
                                       FA([j], Implies(And(0 <= j, j < path.len - 1), via(P, (a(j), xc(a(j))), Select(path.arr, j + 1), xc(Select(path.arr, j + 1)), BoolVal(True))), a(j))))),
            ('the cost is at most that of any path with an admissible heuristic', Implies(H, cost <= gs(m)))]


def extract_pre(E, X, s, g):
    inX, xb, xc = xs(E, X)
    return [('start expanded', And(inX(s), xb(s) == -1)),
            ('backpointers lead to expanded nodes of lower rank', FA([v], Implies(And(inX(v), v != s), And(xb(v) >= 0, inX(xb(v)), rank(xb(v)) < rank(v), rank(xb(v)) >= 0)), inX(v))), ]


def extract_post(E, X, s, g, ret):
    inX, xb, xc = xs(E, X)
    p, cost = ret.f['first'], ret.f['second']
    a = lambda x: Select(p.arr, x)
    return [('no path', Implies(Not(inX(g)), And(p.len == 0, cost == E.INF))),
            ('ends', Implies(inX(g), And(p.len >= 1, a(0) == s, a(p.len - 1) == g, cost == xc(g)))),
            ('backpointers', Implies(inX(g), FA([j], Implies(And(0 <= j, j < p.len - 1), And(inX(Select(p.arr, j + 1)), Select(p.arr, j + 1) != s, xb(Select(p.arr, j + 1)) == a(j))), a(j))))]


def extract_fn(prog):
    return prog.fn('arc_helpers::ExtractAstarResult')


@C.unit('ExtractAstarResult')
def _(prog):
    E = Engine(prog)
    E.pq_hints = ('push', 'pop')

    def inv(L):
        X, s, g = L.argv(0), L.argv(1), L.argv(2)
        inX, xb, xc = xs(E, X)
        S, b = L['solution_path_indices'], L['backpointer']
        a = lambda x: Select(S.arr, x)
        return [('ends', And(S.len >= 1, a(0) == g, b == xb(a(S.len - 1)), (b >= 0) == (a(S.len - 1) != s), inX(g))),
                ('follows backpointers', FA([j], Implies(And(0 <= j, j < S.len), And(inX(a(j)), Implies(j > 0, And(a(j) == xb(Select(S.arr, j - 1)), Select(S.arr, j - 1) != s)))), a(j)))]
    E.verify(extract_fn(prog), pre=lambda c: extract_pre(E, c.arg(0), c.arg(1), c.arg(2)), post=lambda c: extract_post(E, c.arg(0), c.arg(1), c.arg(2), c.ret),
             loops=[Loop(inv, decreases=lambda L: rank(Select(L['solution_path_indices'].arr, L['solution_path_indices'].len - 1)))])
    return E


def new_engine(prog):
    E = Engine(prog)
    E.pq_hints = ('push', 'pop')
    f = extract_fn(prog)
    E.contracts[f['id']] = Contract(pre=lambda c: extract_pre(E, c.arg(0), c.arg(1), c.arg(2)), post=lambda c: extract_post(E, c.arg(0), c.arg(1), c.arg(2), c.ret))
    return E


def flt(prog):
    return next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'float' and prog.types[x].get('w') == 64)


def boolt(prog):
    return next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x]['k'] == 'bool')


def graph_spec(prog, which):
    E = new_engine(prog)
    P = Spec()
    P.E, P.generic = E, False
    P.plus = lambda a, b: a + b
    cls = 'arc_dijkstras::SimpleGraphAstar::'
    if which == 'weights':
        f = prog.fn(cls + 'PerformAstar')
        hi = 3
    else:
        fs = prog.find(cls + 'PerformLazyAstar')
        f = [x for x in fs if ('GraphEdge' in prog.ty(x['p'][3]['t']).deref().s) == (which == 'edges')]
        if len(f) != 1:
            raise Undecided('PerformLazyAstar overloads')
        f, hi = f[0], 5
    D, B = flt(prog), boolt(prog)

    def bind(c, st):
        G = c.arg(0)
        gt = prog.ty(f['p'][0]['t']).deref()
        N = G.f['nodes_']
        nt = N.et
        node = lambda x: E.S.unpack(nt, Select(N.arr, x)).f
        vt = dict(nt.fields())['value_']
        outs = lambda x: node(x)['out_edges_']
        e = lambda x, y: E.S.unpack(outs(x).et, Select(outs(x).arr, y))
        P.start, P.goal = c.arg(1), c.arg(2)
        P.limit = c.arg(hi + 1)
        P.isnode = lambda x: And(0 <= x, x < N.len)
        P.deg = lambda x: outs(x).len
        P.child = lambda x, y: e(x, y).f['to_index_']
        P.pat = lambda x, y: Select(outs(x).arr, y)
        val = lambda x: node(x)['value_']
        S0 = State()
        P.h = lambda x: E.call_ufun(S0, c.arg(hi), [(vt, val(x)), (vt, val(P.goal))], D)
        if which == 'edges':
            P.valid = lambda x, y: E.call_ufun(S0, c.arg(3), [(gt, G), (outs(x).et, e(x, y))], B)
            P.wt = lambda x, y: E.call_ufun(S0, c.arg(4), [(gt, G), (outs(x).et, e(x, y))], D)
        elif which == 'values':
            P.valid = lambda x, y: E.call_ufun(S0, c.arg(3), [(vt, val(x)), (vt, val(P.child(x, y)))], B)
            P.wt = lambda x, y: E.call_ufun(S0, c.arg(4), [(vt, val(x)), (vt, val(P.child(x, y)))], D)
        else:
            P.valid = lambda x, y: And(e(x, y).f['edge_validity_'] != 1, e(x, y).f['weight_'] < E.INF)
            P.wt = lambda x, y: e(x, y).f['weight_']
        # names for the parts of the problem, equal to the source's terms by definition
        n = dict(deg=(Function('deg', I, I), P.deg), child=(Function('child', I, I, I), P.child), valid=(Function('valid', I, I, BoolSort()), P.valid), wt=(Function('wt', I, I, R), P.wt),
                 h=(Function('h', I, R), P.h))
        frm = FA([u, k], Implies(And(P.isnode(u), 0 <= k, k < P.deg(u)), e(u, k).f['from_index_'] == u), P.pat(u, k))
        pat = P.pat(u, k)
        P.defs = [FA([u], And(n['deg'][0](u) == P.deg(u), n['h'][0](u) == P.h(u)), Select(N.arr, u)),
                  FA([u, k], And(*[n[x][0](u, k) == n[x][1](u, k) for x in ('child', 'valid', 'wt')]), pat)]
        P.deg, P.child, P.valid, P.wt, P.h = [n[x][0] for x in ('deg', 'child', 'valid', 'wt', 'h')]
        P.pat = P.child
        P.from_ok = frm
    P.bind = bind

    def current(L):
        return L['n'].f['node_id_'], L.pos
    P.current = current
    P.curcost = lambda L: L['n'].f['cost_to_come_']

    def pre(c):
        bind(c, None)
        s, g = c.arg(1), c.arg(2)
        return [(nm, Implies(And(P.isnode(s), P.isnode(g)), x)) for nm, x in problem(P)] + [('edges start at their node', P.from_ok)] + [('definitions', x) for x in P.defs]

    def bad(c):
        n = c.arg(0).f['nodes_'].len
        return Or(c.arg(1) < 0, c.arg(1) >= n, c.arg(2) < 0, c.arg(2) >= n, c.arg(1) == c.arg(2))
    setup, loops = search_loops(P, None)
    E.verify(f, setup=setup, pre=pre, post=lambda c: search_post(P, c), throws=bad, loops=loops, name=f"{f['q'].split('::')[-1]} ({which})")
    return E


@C.unit('PerformLazyAstar, edge functions')
def _(prog):
    return graph_spec(prog, 'edges')


@C.unit('PerformLazyAstar, node functions')
def _(prog):
    return graph_spec(prog, 'values')


@C.unit('PerformAstar')
def _(prog):
    return graph_spec(prog, 'weights')


@C.unit('GenericAstarSearch')
def _(prog):
    E = new_engine(prog)
    P = Spec()
    P.E, P.generic = E, True
    P.plus = lambda a, b: a + b
    f = prog.fn('arc_helpers::GenericAstarSearch')
    D, B = flt(prog), boolt(prog)
    isn = Function('is_node', I, BoolSort())

    def bind(c, st):
        it = prog.ty(f['p'][0]['t'])
        vt = prog.ty(f['p'][2]['t']).deref()
        S0 = State()
        lt = P.E.result_type(f, 2) if hasattr(P.E, 'result_type') else None
        P.start, P.goal, P.limit = c.arg(0), c.arg(1), c.arg(6)
        P.isnode = isn
        ch = lambda x: E.call_ufun(S0, c.arg(2), [(it, x)], lt_of(prog))
        P.deg = lambda x: ch(x).len
        P.child = lambda x, y: Select(ch(x).arr, y)
        P.pat = lambda x, y: Select(ch(x).arr, y)
        P.valid = lambda x, y: E.call_ufun(S0, c.arg(3), [(it, x), (it, P.child(x, y))], B)
        P.wt = lambda x, y: E.call_ufun(S0, c.arg(4), [(it, x), (it, P.child(x, y))], D)
        P.h = lambda x: E.call_ufun(S0, c.arg(5), [(it, x), (it, P.goal)], D)
    P.bind = bind
    P.current = lambda L: (L['top_node'].f['node_id_'], L.pos)
    P.curcost = lambda L: L['top_node'].f['cost_to_come_']

    def pre(c):
        bind(c, None)
        return problem(P)
    setup, loops = search_loops(P, None)
    E.verify(f, setup=setup, pre=pre, post=lambda c: search_post(P, c), throws=lambda c: c.arg(0) == c.arg(1), loops=loops)
    return E


def lt_of(prog):
    return next(prog.ty(x) for x in range(len(prog.types)) if prog.types[x].get('s', '').replace('class ', '').startswith('std::vector<long') and '*' not in prog.types[x]['s'] and '&' not in prog.types[x]['s'] and 'const' not in prog.types[x]['s'])


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c06.cpp')):
    C.cpp('c06.cpp', secs=(8, 60))

if __name__ == '__main__':
    run(C)
