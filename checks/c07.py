import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA, State

TU = '''#include "/repo/include/arc_utilities/graph.hpp"
struct Thing { int id; };
inline void use() { arc_dijkstras::Graph<Thing> g; g.getConnectedComponentsUndirected(); }
'''
C = Check('C07', tus=dict(main=TU), proof_scope='getConnectedComponentsUndirected and its marking helper, for every graph whose edges lead to existing nodes and have '
          'an edge back, any node count below 2^32',
          assumptions=['the number of nonzero entries of an array is the usual recursive count (its two lemmas are proved by induction in this check)',
                       'fewer than 2^32 nodes (component ids are 32 bit)'])
G = 'arc_dijkstras::Graph::'
A = ArraySort(IntSort(), IntSort())
cnt = Function('nonzero_below', A, IntSort(), IntSort())     # nonzero entries among the first k
S = Function('S', IntSort(), BoolSort())                      # an arbitrary set of nodes closed under edges


def outs(E, nodes, i):
    return E.S.unpack(nodes.et, Select(nodes.arr, i)).f['out_edges_']


def to(E, es, k):
    return E.S.unpack(es.et, Select(es.arr, k)).f['to_index_']


def edges(E, nodes, f):
    """f(i, t) for every edge i -> t"""
    i, k = Ints('i k')
    es = outs(E, nodes, i)
    return FA([i, k], Implies(And(0 <= i, i < nodes.len, 0 <= k, k < es.len), f(i, to(E, es, k))), Select(es.arr, k))


def graph_pre(E, nodes):
    k = Int('kk')

    def back(i, t):
        es = outs(E, nodes, t)
        return Exists([k], And(0 <= k, k < es.len, to(E, es, k) == i))
    return [('edges lead to existing nodes', edges(E, nodes, lambda i, t: And(0 <= t, t < nodes.len))),
            ('every edge has an edge back', edges(E, nodes, back)), ('fewer than 2^32 nodes', nodes.len < 2 ** 32)]


def closed(E, nodes, arr):
    return edges(E, nodes, lambda i, t: Implies(Select(arr, i) != 0, Select(arr, t) == Select(arr, i)))


def s_closed(E, nodes):
    return edges(E, nodes, lambda i, t: Implies(S(i), S(t)))


def count_facts(n):
    """the two lemmas proved by the counting unit, for length n"""
    a = Const('a', A)
    i, v, j = Ints('i v j')
    return [FA([a, i, v], Implies(And(0 <= i, i < n), cnt(Store(a, i, v), n) == cnt(a, n) + If(v != 0, 1, 0) - If(Select(a, i) != 0, 1, 0)), cnt(Store(a, i, v), n)),
            FA([a], And(cnt(a, n) >= 0, cnt(a, n) <= n, Implies(cnt(a, n) == n, FA([j], Implies(And(0 <= j, j < n), Select(a, j) != 0), Select(a, j)))), cnt(a, n))]


@C.unit('counting lemmas')
def _(prog):
    # induction over the length: cnt(a, 0) = 0, cnt(a, k+1) = cnt(a, k) + [a[k] != 0]
    E = Engine(prog)
    E.target = 'lemma: counting nonzero entries'
    E.verified.add(E.target)
    st = State()
    a, k, i, v, j = Const('a0', A), Int('k0'), Int('i0'), Int('v0'), Int('j')
    s = Store(a, i, v)
    for x in (a, s):
        st.assume(cnt(x, 0) == 0, cnt(x, k + 1) == cnt(x, k) + If(Select(x, k) != 0, 1, 0))
    p1 = lambda n: cnt(s, n) == cnt(a, n) + If(i < n, If(v != 0, 1, 0) - If(Select(a, i) != 0, 1, 0), 0)
    p2 = lambda n: And(cnt(a, n) >= 0, cnt(a, n) <= n, Implies(cnt(a, n) == n, ForAll([j], Implies(And(0 <= j, j < n), Select(a, j) != 0))))
    st.assume(i >= 0, k >= 0)
    E.oblige(st, 'store, length 0', p1(IntVal(0)), 'lemma')
    E.oblige(st, 'bounds, length 0', p2(IntVal(0)), 'lemma')
    st2 = st.copy()
    st2.assume(p1(k))
    E.oblige(st2, 'store, one longer', p1(k + 1), 'lemma')
    st2 = st.copy()
    st2.assume(p2(k))
    E.oblige(st2, 'bounds, one longer', p2(k + 1), 'lemma')
    E.oblige(st, 'a zero array counts nothing', Implies(And(cnt(K(IntSort(), IntVal(0)), k) == 0, cnt(K(IntSort(), IntVal(0)), k + 1) == cnt(K(IntSort(), IntVal(0)), k)),
                                                       cnt(K(IntSort(), IntVal(0)), k + 1) == 0), 'lemma')
    return E


def mark_pre(E, nodes, comps, start, cid):
    return graph_pre(E, nodes) + [('sizes agree', comps.len == nodes.len), ('start in range', And(0 <= start, start < nodes.len)), ('start unmarked', Select(comps.arr, start) == 0),
                                  ('id not zero', cid > 0), ('marked so far is closed', closed(E, nodes, comps.arr)), ('S closed', s_closed(E, nodes)), ('start in S', S(start))]


def changed(new, old, cid, n):
    i = Int('i')
    return FA([i], Implies(And(0 <= i, i < n), Or(Select(new, i) == Select(old, i), And(Select(old, i) == 0, Select(new, i) == cid, S(i)))), Select(new, i))


def mark_post(E, nodes, old, new, start, cid, ret):
    return [('size', new.len == old.len), ('start marked', Select(new.arr, start) == cid),
            ('only unmarked nodes of every closed set around the start are marked, with the id', changed(new.arr, old.arr, cid, nodes.len)),
            ('marked nodes are closed under edges', closed(E, nodes, new.arr)),
            ('the number of newly marked nodes is returned', ret == cnt(new.arr, nodes.len) - cnt(old.arr, nodes.len))]


def mark_fn(prog):
    return prog.fn(G + 'markConnectedComponentUndirected')


@C.unit('markConnectedComponentUndirected')
def _(prog):
    E = Engine(prog)
    i, k, q = Ints('i k q')
    nodes = lambda L: L.entry.slots[L.st.frames[0].this.sid].f['nodes_']
    old = lambda L: E.read(E.entry0, E.top_args[1]).arr

    def state(L, cur=None, pos=None):
        n, c, Q = nodes(L), L.argv(1), L['working_queue']
        o, cid = old(L), L.argv(2)
        new = c.arr
        es = outs(E, n, i)
        queued = Exists([q], And(0 <= q, q < Q.len, Select(Q.arr, q) == i))
        # a newly marked node is queued, or being expanded, or all its edges lead to nodes with its id
        done = FA([k], Implies(And(0 <= k, k < es.len), Select(new, to(E, es, k)) == cid), Select(es.arr, k))
        part = [] if cur is None else [And(i == cur, FA([k], Implies(And(0 <= k, k < pos), Select(new, to(E, es, k)) == cid), Select(es.arr, k)))]
        return [('size', c.len == n.len), ('start marked', Select(new, L.argv(0)) == cid), ('changes', changed(new, o, cid, n.len)),
                ('queue holds newly marked nodes', FA([q], Implies(And(0 <= q, q < Q.len), And(0 <= Select(Q.arr, q), Select(Q.arr, q) < n.len, Select(o, Select(Q.arr, q)) == 0,
                                                                                              Select(new, Select(Q.arr, q)) == cid)), Select(Q.arr, q))),
                ('newly marked nodes are queued or expanded', FA([i], Implies(And(0 <= i, i < n.len, Select(o, i) == 0, Select(new, i) != 0), Or(queued, done, *part)), Select(new, i))),
                ('count', L['num_marked'] == cnt(new, n.len) - cnt(o, n.len))]

    def outer(L):
        return state(L)

    def inner(L):
        n, cur = nodes(L), L['next_node_idx']
        es = outs(E, n, cur)
        return state(L, cur, L.pos) + [('position', And(0 <= L.pos, L.pos <= es.len)),
                ('marks are not removed', cnt(L.argv(1).arr, n.len) >= cnt(E.read(L.entry, E.top_args[1]).arr, n.len)),
                ('every new mark is queued', L['working_queue'].len - cnt(L.argv(1).arr, n.len) == L.old('working_queue').len - cnt(E.read(L.entry, E.top_args[1]).arr, n.len)), ('expanding a newly marked node', And(0 <= cur, cur < n.len, Select(old(L), cur) == 0, Select(L.argv(1).arr, cur) == L.argv(2)))]

    def step(L):
        n, cid = nodes(L), L.argv(2)
        c0, c1 = E.read(L.prev.st, E.top_args[1]).arr, L.argv(1).arr
        Q0, Q1 = L.prev['working_queue'], L['working_queue']
        es = outs(E, n, i)
        has = lambda Q: Exists([q], And(0 <= q, q < Q.len, Select(Q.arr, q) == i))
        done = lambda c: FA([k], Implies(And(0 <= k, k < es.len), Select(c, to(E, es, k)) == cid), Select(es.arr, k))
        t = to(E, outs(E, n, L['next_node_idx']), L.prev.pos)
        E.lemma(L.st, 'marks stay', FA([i], Implies(And(0 <= i, i < n.len, Select(c0, i) == cid), Select(c1, i) == cid), Select(c1, i)))
        E.lemma(L.st, 'the neighbour is marked', Select(c1, t) == cid)
        E.lemma(L.st, 'queued nodes stay queued', FA([q], Implies(And(0 <= q, q < Q0.len), Select(Q1.arr, q) == Select(Q0.arr, q)), Select(Q0.arr, q)))
        E.lemma(L.st, 'a new mark is queued', FA([i], Implies(And(0 <= i, i < n.len, Select(c0, i) == 0, Select(c1, i) != 0), And(Q1.len == Q0.len + 1, Select(Q1.arr, Q0.len) == i)), Select(c1, i)))
        E.lemma(L.st, 'expanded nodes stay expanded', FA([i], Implies(And(0 <= i, i < n.len, done(c0)), done(c1)), Select(c1, i)))

    def setup(E, c, st):
        E.entry0 = st.copy()
        st.assume(*count_facts(c.this.f['nodes_'].len))
    f = mark_fn(prog)
    E.verify(f, setup=setup, pre=lambda c: mark_pre(E, c.this.f['nodes_'], c.arg(1), c.arg(0), c.arg(2)),
             post=lambda c: mark_post(E, c.this.f['nodes_'], c.arg(1), c.fin(1), c.arg(0), c.arg(2), c.ret),
             loops=[Loop(outer, decreases=lambda L: 2 * (nodes(L).len - cnt(L.argv(1).arr, nodes(L).len)) + L['working_queue'].len),
                    Loop(inner, decreases=lambda L: outs(E, nodes(L), L['next_node_idx']).len - L.pos, on_step=step)])
    return E


@C.unit('getConnectedComponentsUndirected')
def _(prog):
    E = Engine(prog)
    f = mark_fn(prog)
    E.target = 'lemma: the complement of a closed set is closed'
    st = State()
    nd = E.havoc(st, dict(prog.ty(f['cls']).fields())['nodes_'], 'nodes')
    st.assume(s_closed(E, nd), *[g for _, g in graph_pre(E, nd)])
    a, b = E.fresh('a', IntSort()), E.fresh('b', IntSort())
    st.assume(0 <= a, a < nd.len, 0 <= b, b < outs(E, nd, a).len, Not(S(a)))
    t = to(E, outs(E, nd, a), b)
    kk = Int('kk')
    E.lemma(st, 'there is an edge back', Exists([kk], And(0 <= kk, kk < outs(E, nd, t).len, to(E, outs(E, nd, t), kk) == a, 0 <= t, t < nd.len)))
    E.oblige(st, 'the target is in the complement too', Not(S(t)), 'lemma')
    E.contracts[f['id']] = Contract(pre=lambda c: [x for x in mark_pre(E, c.this.f['nodes_'], c.arg(1), c.arg(0), c.arg(2)) if not x[0].startswith(('S closed', 'start in S'))],
                                    post=lambda c: any_s(mark_post(E, c.this.f['nodes_'], c.arg(1), c.fin(1), c.arg(0), c.arg(2), c.ret), c))
    i, j = Ints('i j')
    nodes = lambda L: L.this.f['nodes_']

    def any_s(post, c):
        # the contract holds for every closed set around the start: it is used for S and for the complement of S (closed too: edges go both ways), whichever contains the start
        out = []
        for nm, g in post:
            if nm.startswith('only'):
                nd, o, n, cid, s0 = c.this.f['nodes_'], c.arg(1).arr, c.fin(1).arr, c.arg(2), c.arg(0)
                g = FA([i], Implies(And(0 <= i, i < nd.len), Or(Select(n, i) == Select(o, i), And(Select(o, i) == 0, Select(n, i) == cid, Implies(S(s0), S(i)), Implies(S(i), S(s0))))), Select(n, i))
            out.append((nm, g))
        return out

    def facts(nd, comps, count):
        c = comps.arr
        return [('every id is used', FA([j], Implies(And(1 <= j, j <= count), Exists([i], And(0 <= i, i < nd.len, Select(c, i) == j))))),
                ('size', comps.len == nd.len), ('ids in range', FA([i], Implies(And(0 <= i, i < nd.len), And(0 <= Select(c, i), Select(c, i) <= count)), Select(c, i))),
                ('edges stay inside a component', closed(E, nd, c)),
                ('a component is inside every closed set it meets', FA([i, j], Implies(And(0 <= i, i < nd.len, 0 <= j, j < nd.len, Select(c, i) == Select(c, j), Select(c, i) != 0, S(i)), S(j)), (Select(c, i), Select(c, j))))]

    def inv(L):
        nd, p, x = nodes(L), L['connected_components'], L['node_idx']
        comps, count = p.f['first'], p.f['second']
        return [('node', And(0 <= x, x <= nd.len)), ('components started', And(0 <= count, count <= x)), ('total', L['total_num_marked'] == cnt(comps.arr, nd.len)),
                ('nodes before are marked', FA([i], Implies(And(0 <= i, i < x), Select(comps.arr, i) != 0), Select(comps.arr, i)))] + facts(nd, comps, count)

    def setup(E, c, st):
        nd = c.this.f['nodes_']
        st.assume(*count_facts(nd.len))
        z = K(IntSort(), IntVal(0))
        st.assume(cnt(z, nd.len) == 0)

    def post(c):
        nd, comps, count = c.this.f['nodes_'], c.ret.f['first'], c.ret.f['second']
        return [('every node has a component', FA([i], Implies(And(0 <= i, i < nd.len), And(1 <= Select(comps.arr, i), Select(comps.arr, i) <= count)), Select(comps.arr, i)))] + facts(nd, comps, count)
    E.verify(prog.fn(G + 'getConnectedComponentsUndirected'), setup=setup,
             pre=lambda c: graph_pre(E, c.this.f['nodes_']) + [('S is closed', s_closed(E, c.this.f['nodes_']))], post=post,
             loops=[Loop(inv, decreases=lambda L: nodes(L).len - L['node_idx'])])
    return E


C.cpp('c07.cpp', secs=(8, 60))

if __name__ == '__main__':
    run(C)
