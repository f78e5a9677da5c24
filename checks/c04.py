import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA

TU = '''#include "/repo/include/arc_utilities/graph.hpp"
struct Thing { int id; };
inline void use() {
using namespace arc_dijkstras;
std::vector<GraphNode<Thing>> ns; Graph<Thing> g(ns); const Graph<Thing>& c = g; Thing t;
g.checkGraphLinkage(); Graph<Thing>::CheckGraphLinkage(g); Graph<Thing>::CheckGraphLinkage(ns);
g.addNode(t); g.addNode(ns[0]); g.addEdgeBetweenNodes(0, 1, 2.0); g.addEdgesBetweenNodes(0, 1, 2.0);
g.getEdge(0, 1); c.getEdge(0, 1); g.getReverseEdge(g.getEdge(0, 1)); g.indexInRange(3); g.getNode(2); c.getNode(2);
ns[0].getEdgeTo(1); c.getNodes()[0].getEdgeTo(1);
}
'''
C = Check('C04', tus=dict(main=TU), proof_scope='graph construction and linkage checking for any node type, node count and edge lists')
G = 'arc_dijkstras::Graph::'


def node(E, nodes, i):
    return E.S.unpack(nodes.et, Select(nodes.arr, i))


def edge(E, es, k):
    return E.S.unpack(es.et, Select(es.arr, k)).f


def back_out(E, nodes, frm, to):
    """node frm has an out edge leading to node to"""
    k = Int('kk')
    o = node(E, nodes, frm).f['out_edges_']
    return Exists([k], And(0 <= k, k < o.len, edge(E, o, k)['to_index_'] == to))


def back_in(E, nodes, to, frm):
    k = Int('kk')
    o = node(E, nodes, to).f['in_edges_']
    return Exists([k], And(0 <= k, k < o.len, edge(E, o, k)['from_index_'] == frm))


def in_ok(E, nodes, i, k):
    e = edge(E, node(E, nodes, i).f['in_edges_'], k)
    f = e['from_index_']
    return And(0 <= f, f < nodes.len, e['to_index_'] == i, f != i, back_out(E, nodes, f, i))


def out_ok(E, nodes, i, k):
    e = edge(E, node(E, nodes, i).f['out_edges_'], k)
    t = e['to_index_']
    return And(0 <= t, t < nodes.len, e['from_index_'] == i, t != i, back_in(E, nodes, t, i))


def ins_ok(E, nodes, i, upto=None):
    k = Int('k')
    es = node(E, nodes, i).f['in_edges_']
    return FA([k], Implies(And(0 <= k, k < (es.len if upto is None else upto)), in_ok(E, nodes, i, k)), Select(es.arr, k))


def outs_ok(E, nodes, i, upto=None):
    k = Int('k')
    es = node(E, nodes, i).f['out_edges_']
    return FA([k], Implies(And(0 <= k, k < (es.len if upto is None else upto)), out_ok(E, nodes, i, k)), Select(es.arr, k))


def linked(E, nodes, upto=None):
    i = Int('i')
    return FA([i], Implies(And(0 <= i, i < (nodes.len if upto is None else upto)), And(ins_ok(E, nodes, i), outs_ok(E, nodes, i))), Select(nodes.arr, i))


def check_loops(E):
    N = lambda L: L.argv(0)

    def outer(L):
        i = L['idx']
        return [('node', And(0 <= i, i <= N(L).len)), ('nodes before are linked', linked(E, N(L), i))]

    def ins(L):
        k = L['in_edge_idx']
        return [('edge', And(0 <= k, k <= L['in_edges'].len)), ('in edges before are linked', ins_ok(E, N(L), L['idx'], k))]

    def seek(var, lst, fld, flag):
        def inv(L):
            k, q = L[var], Int('q')
            es = L[lst]
            return [('edge', And(0 <= k, k <= es.len)),
                    ('found so far', L[flag] == Exists([q], And(0 <= q, q < k, edge(E, es, q)[fld] == L['idx'])))]
        return Loop(inv, decreases=lambda L: L[lst].len - L[var])

    def outs(L):
        k = L['out_edge_idx']
        return [('edge', And(0 <= k, k <= L['out_edges'].len)), ('in edges are linked', ins_ok(E, N(L), L['idx'])),
                ('out edges before are linked', outs_ok(E, N(L), L['idx'], k))]
    return [Loop(outer, decreases=lambda L: N(L).len - L['idx']),
            Loop(ins, decreases=lambda L: L['in_edges'].len - L['in_edge_idx']),
            seek('from_node_out_edge_idx', 'from_node_out_edges', 'to_index_', 'from_node_connection_valid'),
            Loop(outs, decreases=lambda L: L['out_edges'].len - L['out_edge_idx']),
            seek('to_node_in_edge_idx', 'to_node_in_edges', 'from_index_', 'to_node_connection_valid')]


def rname(P, f, i):
    return P.ty(f['p'][i]['t']).deref().n


def linkage_fn(prog):
    return prog.fn(G + 'CheckGraphLinkage', lambda P, f: rname(P, f, 0) == 'std::vector')


@C.unit('CheckGraphLinkage')
def _(prog):
    E = Engine(prog)
    E.verify(linkage_fn(prog), post=lambda c: [('true exactly when every edge is linked at both ends', c.ret == linked(E, c.arg(0)))], loops=check_loops(E))
    return E


def opaque(E, nodes):
    """the linkage predicate, its definition hidden (CheckGraphLinkage above is proved equal to it)"""
    x = E.S.pack(nodes.ty, nodes)
    return Function('linked', x.sort(), BoolSort())(x)


def with_linkage(prog, E):
    f = linkage_fn(prog)
    E.contracts[f['id']] = Contract(pre=lambda c: [], post=lambda c: [('linked', c.ret == opaque(E, c.arg(0)))], modifies=lambda c: [])


@C.unit('graph from nodes, linkage of a graph')
def _(prog):
    E = Engine(prog)
    with_linkage(prog, E)
    E.verify(prog.fn(G + 'CheckGraphLinkage', lambda P, f: rname(P, f, 0) != 'std::vector'), name='CheckGraphLinkage(graph)',
             post=lambda c: [('linked', c.ret == opaque(E, c.arg(0).f['nodes_']))])
    E.verify(prog.fn(G + 'checkGraphLinkage'), post=lambda c: [('linked', c.ret == opaque(E, c.this.f['nodes_']))])
    E.verify(prog.fn(G + 'Graph', lambda P, f: len(f['p']) == 1 and rname(P, f, 0) == 'std::vector'), name='Graph(nodes)',
             throws=lambda c: True, throw_post=lambda c: [('only for broken linkage', Not(opaque(E, c.arg(0))))],
             post=lambda c: [('linkage holds', opaque(E, c.this1.f['nodes_'])), ('nodes taken over', same_vec(c.this1.f['nodes_'], c.arg(0)))])
    return E


def same_vec(a, b, upto=None):
    i = Int('i')
    n = b.len if upto is None else upto
    return And(a.len == b.len if upto is None else True, FA([i], Implies(And(0 <= i, i < n), Select(a.arr, i) == Select(b.arr, i)), Select(a.arr, i)))


@C.unit('addNode')
def _(prog):
    E = Engine(prog)
    for k, f in enumerate(prog.find(G + 'addNode')):
        val = rname(prog, f, 0) != 'arc_dijkstras::GraphNode'

        def post(c, val=val):
            n0, n1 = c.this.f['nodes_'], c.this1.f['nodes_']
            new = node(E, n1, n0.len)
            r = [('one more node', n1.len == n0.len + 1), ('its index is returned', c.ret == n0.len), ('others unchanged', same_vec(n1, n0, n0.len))]
            a = c.arg(0)
            if val:
                vt = prog.ty(c.fn['p'][0]['t']).deref()
                return r + [('value', E.S.pack(vt, new.f['value_']) == E.S.pack(vt, a)), ('no edges', And(new.f['in_edges_'].len == 0, new.f['out_edges_'].len == 0)),
                            ('distance', new.f['distance_'] == E.INF)]
            return r + [('node', Select(n1.arr, n0.len) == E.S.pack(n1.et, a))]
        E.verify(f, name='addNode(' + ('value' if val else 'node') + ')', post=post)
    return E


def isnew(E, es, k, frm, to, w):
    e = edge(E, es, k)
    return And(e['from_index_'] == frm, e['to_index_'] == to, e['weight_'] == w, e['edge_validity_'] == 2)


def added(E, n0, n1, frm, to, w):
    """n1 is n0 with one edge appended at both ends"""
    a0, a1, b0, b1 = node(E, n0, frm), node(E, n1, frm), node(E, n0, to), node(E, n1, to)
    i = Int('i')
    o0, o1, i0, i1 = a0.f['out_edges_'], a1.f['out_edges_'], b0.f['in_edges_'], b1.f['in_edges_']
    return [('no node added', n1.len == n0.len),
            ('other nodes unchanged', FA([i], Implies(And(0 <= i, i < n0.len, i != frm, i != to), Select(n1.arr, i) == Select(n0.arr, i)), Select(n1.arr, i))),
            ('one out edge more', And(o1.len == o0.len + 1, isnew(E, o1, o0.len, frm, to, w))), ('earlier out edges unchanged', same_vec(o1, o0, o0.len)),
            ('one in edge more', And(i1.len == i0.len + 1, isnew(E, i1, i0.len, frm, to, w))), ('earlier in edges unchanged', same_vec(i1, i0, i0.len)),
            ('in edges of the source unchanged', same_vec(a1.f['in_edges_'], a0.f['in_edges_'])),
            ('out edges of the target unchanged', same_vec(b1.f['out_edges_'], b0.f['out_edges_'])),
            ('values and distances of the endpoints unchanged', And(*[E.S.pack(t, x.f[n]) == E.S.pack(t, y.f[n]) for n, t in n0.et.fields() if n in ('value_', 'distance_') for x, y in ((a1, a0), (b1, b0))]))]


@C.unit('getEdgeTo')
def _(prog):
    E = Engine(prog)
    for f in prog.find('arc_dijkstras::GraphNode::getEdgeTo'):
        q = Int('q')

        def inv(L):
            es = L.this.f['out_edges_']
            return [('position', And(0 <= L.pos, L.pos <= es.len)),
                    ('no match before', FA([q], Implies(And(0 <= q, q < L.pos), edge(E, es, q)['to_index_'] != L.argv(0)), Select(es.arr, q)))]

        def post(c):
            es = c.this.f['out_edges_']
            r = E.read(c.st1, c.ret) if not hasattr(c.ret, 'f') else c.ret
            k = Int('k')
            return [('the first edge to the node', Exists([k], And(0 <= k, k < es.len, E.S.pack(es.et, r) == Select(es.arr, k), edge(E, es, k)['to_index_'] == c.arg(0),
                                                                 FA([q], Implies(And(0 <= q, q < k), edge(E, es, q)['to_index_'] != c.arg(0)), Select(es.arr, q))))),
                    ('node unchanged', same_vec(c.this1.f['out_edges_'], es))]

        def none(c):
            es = c.this.f['out_edges_']
            return [('only if there is no such edge', FA([q], Implies(And(0 <= q, q < es.len), edge(E, es, q)['to_index_'] != c.arg(0)), Select(es.arr, q)))]
        E.verify(f, name='getEdgeTo ' + ('const' if f.get('const') else ''), post=post, throws=lambda c: True, throw_post=none, loops=[Loop(inv, decreases=lambda L: L.this.f['out_edges_'].len - L.pos)])
    return E


@C.unit('addEdgeBetweenNodes')
def _(prog):
    E = Engine(prog)
    q = Int('q')

    def inv(L):
        es = L.this.f['out_edges_']
        t = L.st.frames[-1]
        return [('position', And(0 <= L.pos, L.pos <= es.len)),
                ('no match before', FA([q], Implies(And(0 <= q, q < L.pos), edge(E, es, q)['to_index_'] != L.argv(1)), Select(es.arr, q)))]

    def post(c):
        n0, n1 = c.this.f['nodes_'], c.this1.f['nodes_']
        frm, to, w = c.arg(0), c.arg(1), c.arg(2)
        return [('endpoints in range', And(0 <= frm, frm < n0.len, 0 <= to, to < n0.len, frm != to))] + added(E, n0, n1, frm, to, w)

    def bad(c):
        n0, n1 = c.this.f['nodes_'], c.this1.f['nodes_']
        frm, to = c.arg(0), c.arg(1)
        return [('only for endpoints out of range or equal', Not(And(0 <= frm, frm < n0.len, 0 <= to, to < n0.len, frm != to))), ('graph unchanged', same_vec(n1, n0))]
    E.verify(prog.fn(G + 'addEdgeBetweenNodes'), post=post, throws=lambda c: True, throw_post=bad,
             loops=[Loop(inv, decreases=lambda L: L.this.f['out_edges_'].len - L.pos)])
    return E


@C.unit('adding keeps the linkage')
def _(prog):
    # a lemma over the contracts of addEdgeBetweenNodes and addNode
    E = Engine(prog)
    from vc import State
    gt = prog.ty(prog.find(G + 'addEdgeBetweenNodes')[0]['cls'])
    vt = dict(gt.fields())['nodes_']
    frm, to, w, k = Int('frm'), Int('to'), Real('w'), Int('k')
    E.target = 'lemma: addEdgeBetweenNodes preserves linkage'
    E.verified.add(E.target)
    st = State()
    n0, n1 = E.havoc(st, vt, 'n0'), E.havoc(st, vt, 'n1')
    st.assume(0 <= frm, frm < n0.len, 0 <= to, to < n0.len, frm != to)
    for _, f in added(E, n0, n1, frm, to, w):
        st.assume(f)
    for x in (frm, to):     # sizes are not negative
        E.leaf_facts(st, vt.velem, node(E, n0, x))
    E.lemma(st, 'the new edge is in the out list', back_out(E, n1, frm, to))
    E.lemma(st, 'the new edge is in the in list', back_in(E, n1, to, frm))
    i = E.fresh('i', IntSort())
    st.assume(0 <= i, i < n1.len)
    a, b, j = Ints('a b j')
    # links present before are present after
    E.lemma(st, 'out links survive', FA([a, b], Implies(And(0 <= a, a < n0.len, 0 <= b, b < n0.len, back_out(E, n0, a, b)), back_out(E, n1, a, b)),
                                        (Select(n0.arr, a), Select(n0.arr, b))))
    E.lemma(st, 'in links survive', FA([a, b], Implies(And(0 <= a, a < n0.len, 0 <= b, b < n0.len, back_in(E, n0, a, b)), back_in(E, n1, a, b)),
                                       (Select(n0.arr, a), Select(n0.arr, b))))
    st.assume(linked(E, n0))
    for nm, fld in (('in', 'in_edges_'), ('out', 'out_edges_')):
        s = st.copy()
        ok = in_ok if nm == 'in' else out_ok
        k = E.fresh('k', IntSort())
        e1, e0 = node(E, n1, i).f[fld], node(E, n0, i).f[fld]
        s.assume(0 <= k, k < e1.len)
        E.lemma(s, f'{nm} edge kept or new', Or(And(k < e0.len, Select(e1.arr, k) == Select(e0.arr, k)), And(k == e0.len, i == (to if nm == 'in' else frm), isnew(E, e1, k, frm, to, w))))
        E.lemma(s, f'a kept {nm} edge was linked', Implies(k < e0.len, ok(E, n0, i, k)))
        E.oblige(s, f'every {nm} edge is linked', ok(E, n1, i, k), 'post')
    E.target = 'lemma: addNode preserves linkage'
    E.verified.add(E.target)
    st = State()
    n0, n1 = E.havoc(st, vt, 'n0'), E.havoc(st, vt, 'n1')
    new = node(E, n1, n0.len)
    st.assume(linked(E, n0), n1.len == n0.len + 1, same_vec(n1, n0, n0.len), new.f['in_edges_'].len == 0, new.f['out_edges_'].len == 0)
    i, k = E.fresh('i', IntSort()), E.fresh('k', IntSort())
    st.assume(0 <= i, i < n1.len)
    for nm, ok, fld in (('in', in_ok, 'in_edges_'), ('out', out_ok, 'out_edges_')):
        s = st.copy()
        s.assume(0 <= k, k < node(E, n1, i).f[fld].len)
        E.lemma(s, 'not the new node', i < n0.len)
        E.lemma(s, f'the {nm} edge was linked', ok(E, n0, i, k))
        E.oblige(s, f'every {nm} edge is linked', ok(E, n1, i, k), 'post')
    return E


@C.unit('getEdge, getReverseEdge, getNode, indexInRange, addEdgesBetweenNodes')
def _(prog):
    E = Engine(prog)
    q, k = Int('q'), Int('k')
    for f in prog.find(G + 'getNode'):
        E.verify(f, throws=lambda c: True, throw_post=lambda c: [('only out of range', Not(And(0 <= c.arg(0), c.arg(0) < c.this.f['nodes_'].len)))],
                 post=lambda c: [('in range', And(0 <= c.arg(0), c.arg(0) < c.this.f['nodes_'].len)),
                                 ('the node', E.S.pack(c.this.f['nodes_'].et, rd(E, c)) == Select(c.this.f['nodes_'].arr, c.arg(0)))])
    E.verify(prog.fn(G + 'indexInRange'), post=lambda c: [('range', c.ret == And(0 <= c.arg(0), c.arg(0) < c.this.f['nodes_'].len))])

    def first(c, frm, to):
        n = c.this.f['nodes_']
        es = node(E, n, frm).f['out_edges_']
        return [('node in range', And(0 <= frm, frm < n.len)),
                ('the first edge between the two', Exists([k], And(0 <= k, k < es.len, E.S.pack(es.et, rd(E, c)) == Select(es.arr, k), edge(E, es, k)['to_index_'] == to,
                                                                   FA([q], Implies(And(0 <= q, q < k), edge(E, es, q)['to_index_'] != to)))))]

    def none(c, frm, to):
        n = c.this.f['nodes_']
        es = node(E, n, frm).f['out_edges_']
        return [('only without such an edge', Or(Not(And(0 <= frm, frm < n.len)), FA([q], Implies(And(0 <= q, q < es.len), edge(E, es, q)['to_index_'] != to), Select(es.arr, q))))]

    def seek(to):
        def inv(L):
            es = L.this.f['out_edges_']
            return [('position', And(0 <= L.pos, L.pos <= es.len)),
                    ('no match before', FA([q], Implies(And(0 <= q, q < L.pos), edge(E, es, q)['to_index_'] != to(L)), Select(es.arr, q)))]
        return Loop(inv, decreases=lambda L: L.this.f['out_edges_'].len - L.pos)
    for f in prog.find(G + 'getEdge'):
        E.verify(f, throws=lambda c: True, post=lambda c: first(c, c.arg(0), c.arg(1)), throw_post=lambda c: none(c, c.arg(0), c.arg(1)), loops=[seek(lambda L: L.argv(1))])
    E.verify(prog.fn(G + 'getReverseEdge'), throws=lambda c: True, post=lambda c: first(c, c.arg(0).f['to_index_'], c.arg(0).f['from_index_']),
             throw_post=lambda c: none(c, c.arg(0).f['to_index_'], c.arg(0).f['from_index_']), loops=[seek(lambda L: L.argv(0).f['from_index_'])])

    def both(c):
        n0, n1 = c.this.f['nodes_'], c.this1.f['nodes_']
        a, b, w = c.arg(0), c.arg(1), c.arg(2)
        out = []
        for x, y in ((a, b), (b, a)):
            o0, o1 = node(E, n0, x).f['out_edges_'], node(E, n1, x).f['out_edges_']
            i0, i1 = node(E, n0, x).f['in_edges_'], node(E, n1, x).f['in_edges_']
            out += [('one out edge more', And(o1.len == o0.len + 1, isnew(E, o1, o0.len, x, y, w))), ('earlier out edges unchanged', same_vec(o1, o0, o0.len)),
                    ('one in edge more', And(i1.len == i0.len + 1, isnew(E, i1, i0.len, y, x, w))), ('earlier in edges unchanged', same_vec(i1, i0, i0.len))]
        i = Int('i')
        out.append(('values and distances unchanged', And(*[E.S.pack(t, node(E, n1, x).f[n]) == E.S.pack(t, node(E, n0, x).f[n]) for n, t in n0.et.fields() if n in ('value_', 'distance_') for x in (a, b)])))
        return out + [('no node added', n1.len == n0.len),
                      ('other nodes unchanged', FA([i], Implies(And(0 <= i, i < n0.len, i != a, i != b), Select(n1.arr, i) == Select(n0.arr, i)), Select(n1.arr, i))),
                      ('endpoints', And(0 <= a, a < n0.len, 0 <= b, b < n0.len, a != b))]
    E.verify(prog.fn(G + 'addEdgesBetweenNodes'), throws=lambda c: True, post=both,
             throw_post=lambda c: [('only for bad endpoints', Not(And(0 <= c.arg(0), c.arg(0) < c.this.f['nodes_'].len, 0 <= c.arg(1), c.arg(1) < c.this.f['nodes_'].len, c.arg(0) != c.arg(1)))),
                                   ('graph unchanged', same_vec(c.this1.f['nodes_'], c.this.f['nodes_']))],
             loops=[seek(lambda L: L.argv(1)), seek(lambda L: L.argv(0))])
    return E


def rd(E, c):
    return E.read(c.st1, c.ret) if not hasattr(c.ret, 'f') else c.ret


C.cpp('c04.cpp', secs=(8, 60))

if __name__ == '__main__':
    run(C)
