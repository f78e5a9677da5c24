import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State

TU = '''#include "/repo/include/arc_utilities/dijkstras.hpp"
struct Thing { int id; };
inline void use() { using namespace arc_dijkstras; Graph<Thing> g; SimpleDijkstrasAlgorithm<Thing>::PerformDijkstrasAlgorithm(g, 0); }
'''
C = Check('C05', tus=dict(main=TU), proof_scope='PerformDijkstrasAlgorithm for every graph whose in-edges come from existing nodes with weights of at least 0 (infinite ones included)',
          assumptions=['the number of nonzero entries of an array is the usual recursive count (lemmas proved in C07)',
                       'additions that exceed the largest double give infinity (IEEE), rounding is ignored'])
A = ArraySort(IntSort(), IntSort())
cnt = Function('nonzero_below', A, IntSort(), IntSort())
delta = Function('delta', IntSort(), RealSort())    # an arbitrary feasible potential


def count_facts(n):
    a = Const('a', A)
    i, v = Ints('i v')
    return [FA([a, i, v], Implies(And(0 <= i, i < n), cnt(Store(a, i, v), n) == cnt(a, n) + If(v != 0, 1, 0) - If(Select(a, i) != 0, 1, 0)), cnt(Store(a, i, v), n)),
            FA([a], And(cnt(a, n) >= 0, cnt(a, n) <= n), cnt(a, n))]


def previous_order(order, P, s, n):
    i = Int('i')
    return FA([i], Implies(And(0 <= i, i < n, i != s, Select(P, i) != -1), And(0 <= Select(order, Select(P, i)), Select(order, Select(P, i)) < Select(order, i))), Select(P, i))


@C.unit('PerformDijkstrasAlgorithm')
def _(prog):
    E = Engine(prog, ext_inf=True)
    E.pq_hints = ('pop',)
    INF = E.INF
    i, k, q, t = Ints('i k q t')
    plus = lambda a, b: E.farith(State(), '+', a, b, None)
    node = lambda nodes, x: E.S.unpack(nodes.et, Select(nodes.arr, x))

    def ins(nodes, x):
        return node(nodes, x).f['in_edges_']

    def ed(es, x):
        f = E.S.unpack(es.et, Select(es.arr, x)).f
        return f['from_index_'], f['weight_']

    def edges(nodes, f, upto=None):
        """f(i, t, w) for every edge i -> t of weight w"""
        es = ins(nodes, t)
        fr, w = ed(es, k)
        return FA([t, k], Implies(And(0 <= t, t < nodes.len, 0 <= k, k < es.len), f(fr, t, w)), Select(es.arr, k))

    G = lambda c: c.arg(0).f['nodes_']
    pre = lambda c: [('in-edges come from existing nodes', edges(G(c), lambda a, b, w: And(0 <= a, a < G(c).len))),
                     ('weights at least 0', edges(G(c), lambda a, b, w: And(w >= 0, w <= INF))),
                     ('delta is feasible', And(delta(c.arg(1)) <= 0, edges(G(c), lambda a, b, w: Implies(w < INF, delta(a) <= delta(b) + w)))),
                     ('delta bounded', FA([i], delta(i) <= INF, delta(i)))]

    def explored(m, x):
        return And(Select(m.dom, x), Select(m.val, x) > 0)

    def sound(D, n):
        return FA([i], Implies(And(0 <= i, i < n), And(delta(i) <= Select(D, i), 0 <= Select(D, i), Select(D, i) <= INF)), Select(D, i))

    def tree(nodes, D, P, s, extra=lambda p: True):
        p = Select(P, i)
        es = ins(nodes, p)
        fr, w = ed(es, k)
        via = Exists([k], And(0 <= k, k < es.len, fr == i, Select(D, i) == plus(Select(D, p), w)))
        return FA([i], Implies(And(0 <= i, i < nodes.len), And(-1 <= p, p < nodes.len, (p == -1) == (Select(D, i) == INF),
                                                            Implies(And(p != -1, i != s), And(via, extra(p))))), p)

    def same_graph(g, wn, D):
        a, b = node(g, i), node(wn, i)
        others = [E.S.pack(f_ty, b.f[f]) == E.S.pack(f_ty, a.f[f]) for f, f_ty in g.et.fields() if f != 'distance_']
        return FA([i], Implies(And(0 <= i, i < g.len), And(b.f['distance_'] == Select(D, i), *others)), Select(wn.arr, i))

    def parts(L):
        g = E.read(L.entry0, E.top_args[0]).f['nodes_']
        return g, L['working_copy'].f['nodes_'], L['distances'], L['previous_index_map'], L['queue'], L['explored'], L.argv(1)

    def qe(Q, x):
        f = E.S.unpack(Q.ty.args[0], Select(Q.arr, x)).f
        return f['first'], f['second']

    def base(L, cur=None, pos=None, curd=None):
        L.entry0 = E.entry0
        g, w, D, P, Q, X, s = parts(L)
        n = g.len
        id, d = qe(Q, q)
        D, Pm = D.arr, P.arr
        return [('sizes', And(w.len == n, L['distances'].len == n, P.len == n, Q.len >= 0)), ('working copy is the graph with the distances', same_graph(g, w, D)),
                ('queue entries', FA([q], Implies(And(0 <= q, q < Q.len), And(0 <= id, id < n, d >= Select(D, id), d <= INF)), Select(Q.arr, q))),
                ('unexplored nodes are queued', FA([i], Implies(And(0 <= i, i < n, Not(explored(X, i))), Exists([q], And(0 <= q, q < Q.len, id == i, d == Select(D, i)))), Select(D, i))),
                ('explored nodes are nearer than the queue', FA([i, q], Implies(And(0 <= i, i < n, explored(X, i), 0 <= q, q < Q.len), Select(D, i) <= d), (Select(D, i), Select(Q.arr, q)))),
                ('edges of explored nodes are relaxed', edges(g, lambda a, b, wt: Implies(And(explored(X, b), *([] if cur is None else [Or(b != cur, k < pos)])), Select(D, a) <= plus(Select(D, b), wt)))),
                ('distances', And(sound(D, n), Select(D, s) == 0, Select(Pm, s) == s)),
                ('shortest path tree', tree(g, D, Pm, s, lambda p: explored(X, p))),
                ('explored set', FA([i], Implies(And(0 <= i, i < n), (Select(L.st.ghost['ex'], i) != 0) == explored(X, i)), Select(L.st.ghost['ex'], i))),
                ('explored keys', FA([i], Implies(explored(X, i), And(0 <= i, i < n)), Select(X.val, i))),
                ('previous nodes were explored before', FA([i], Implies(And(0 <= i, i < n, i != s, Select(Pm, i) != -1, explored(X, i)), Select(L.st.ghost['ord'], Select(Pm, i)) < Select(L.st.ghost['ord'], i)), Select(Pm, i))),
                ('order', And(L.st.ghost['clock'] >= 0, FA([i], And(0 <= Select(L.st.ghost['ord'], i), Select(L.st.ghost['ord'], i) <= L.st.ghost['clock']), Select(L.st.ghost['ord'], i)))),
                ]

    def init(L):
        L.entry0 = E.entry0
        g, w, D, P, Q, X, s = parts(L)
        x, n = L['idx'], g.len
        id, d = qe(Q, q)
        nd, gd = node(w, i), node(g, i)
        others = [E.S.pack(f_ty, nd.f[f]) == E.S.pack(f_ty, gd.f[f]) for f, f_ty in g.et.fields() if f != 'distance_']
        return [('index', And(0 <= x, x <= n)), ('sizes', And(w.len == n, Q.len == x)),
                ('queue', FA([q], Implies(And(0 <= q, q < x), And(id == q, d == INF)), Select(Q.arr, q))),
                ('distances set', FA([i], Implies(And(0 <= i, i < n), And(Implies(i < x, nd.f['distance_'] == INF), *others)), Select(w.arr, i)))]

    def outer(L):
        return base(L)

    def inner(L):
        L.entry0 = E.entry0
        g, w, D, P, Q, X, s = parts(L)
        cur, cd, pos = L['top_node_index'], L['top_node_distance'], L['neighbor_idx']
        id, d = qe(Q, q)
        return base(L, cur, pos) + [('position', And(0 <= pos, pos <= ins(g, cur).len)), ('current node', And(0 <= cur, cur < g.len, explored(X, cur), Select(D.arr, cur) == cd, cd >= 0, cd <= INF)),
                ('explored nodes are no farther', FA([i], Implies(And(0 <= i, i < g.len, explored(X, i)), Select(D.arr, i) <= cd), Select(D.arr, i)))]

    def setup(E, c, st):
        E.entry0 = st.copy()
        st.ghost['ex'] = st.ghost['ord'] = K(IntSort(), IntVal(0))
        st.ghost['clock'] = IntVal(0)
        n = G(c).len
        st.assume(*count_facts(n), cnt(K(IntSort(), IntVal(0)), n) == 0)

    def outer_body(L):
        pass

    def exploring(L):
        # entered the inner loop: the popped node becomes explored
        pass

    def outer_step(L):
        X0 = L.prev['explored']
        tn = E.read(L.st, L.lv('top_node')).f['first'] if hasattr(L, 'lv') else L['top_node'].f['first']
        ex = L.prev.st.ghost['ex']
        L.st.ghost['ex'] = If(explored(X0, tn), ex, Store(ex, tn, 1))

    def inner_setup(L):
        ex = L.st.ghost['ex']
        L.st.ghost['ex'] = Store(ex, L['top_node_index'], 1)
        L.st.ghost['clock'] = L.st.ghost['clock'] + 1
        L.st.ghost['ord'] = Store(L.st.ghost['ord'], L['top_node_index'], L.st.ghost['clock'])

    def post(c):
        g, w, D, P = G(c), c.ret.f['first'].f['nodes_'], c.ret.f['second'].f['second'], c.ret.f['second'].f['first']
        s, n = c.arg(1), g.len
        return [('start in range', And(0 <= s, s < n)), ('sizes', And(D.len == n, P.len == n, w.len == n)),
                ('no distance is above the feasible minimum', edges(g, lambda a, b, wt: Select(D.arr, a) <= plus(Select(D.arr, b), wt))),
                ('start', And(Select(D.arr, s) == 0, Select(P.arr, s) == s)), ('no distance is below any feasible potential', sound(D.arr, n)),
                ('previous nodes lead along edges that account for the distance', tree(g, D.arr, P.arr, s)),
                ('following previous nodes ends at the start', previous_order(c.st1.ghost['ord'], P.arr, s, n)),
                ('returned graph is the input with the distances', same_graph(g, w, D.arr))]
    E.verify(prog.fn('arc_dijkstras::SimpleDijkstrasAlgorithm::PerformDijkstrasAlgorithm'), setup=setup, pre=pre, post=post,
             throws=lambda c: Or(c.arg(1) < 0, c.arg(1) >= G(c).len),
             loops=[Loop(init, decreases=lambda L: E.read(E.entry0, E.top_args[0]).f['nodes_'].len - L['idx']),
                    Loop(outer, decreases=lambda L: (E.read(E.entry0, E.top_args[0]).f['nodes_'].len - cnt(L.st.ghost['ex'], E.read(E.entry0, E.top_args[0]).f['nodes_'].len), L['queue'].len), on_step=outer_step, ghosts=['ex', 'ord', 'clock']),
                    Loop(inner, decreases=lambda L: ins(E.read(E.entry0, E.top_args[0]).f['nodes_'], L['top_node_index']).len - L['neighbor_idx'], setup=inner_setup)])
    return E


if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c05.cpp')):
    C.cpp('c05.cpp', secs=(8, 60))

if __name__ == '__main__':
    run(C)
