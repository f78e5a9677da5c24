import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include "/repo/include/arc_utilities/simple_hierarchical_clustering.hpp"
struct Thing { int id; };
inline void use(const std::vector<Thing>& a, const Eigen::MatrixXd& m, const std::function<double(const Thing&, const Thing&)>& f) {
  using namespace simple_hierarchical_clustering;
  SimpleHierarchicalClustering::Cluster(a, m, 1.0, SINGLE_LINK);
  SimpleHierarchicalClustering::Cluster(a, f, 1.0, SINGLE_LINK);
}
'''
C = Check('C23', tus=dict(main=TU),
          proof_scope='GetClosestPair (closest pair of unmerged items and clusters for both strategies) and Cluster (partition, linkage, remaining distance), for any data, any '
                      'symmetric non-negative distance matrix and any limit; sequential loops',
          assumptions=['distances are symmetric and not negative (infinity allowed, no NaN)', 'termination of the merge loop is not proved (the harness runs it under a timer)',
                       'the variant with OpenMP threads runs in the replay harness only (bounded)'])
NS = 'simple_hierarchical_clustering::SimpleHierarchicalClustering::'
i, j, p, q, a, b, x = Ints('i j p q a b x')
LPC = Function('link_point_cluster', IntSort(), IntSort(), RealSort())
LCC = Function('link_cluster_cluster', IntSort(), IntSort(), RealSort())


def d(m, u, v):
    return Select(Select(m.arr, u), v)


def cl(E, v, k):
    return E.S.unpack(v.et, Select(v.arr, k))


def mem(E, v, k, t):
    return Select(cl(E, v, k).arr, t)


def full(E, v, k):
    return And(0 <= k, k < v.len, cl(E, v, k).len > 0)


def wf(E, mask, m, v):
    return [('matrix size', And(m.rows == mask.len, m.cols == mask.len, mask.len < 2 ** 60, v.len < 2 ** 60)),
            ('distances', FA([i, j], d(m, i, j) >= 0, d(m, i, j))),
            ('distances bounded', FA([i, j], d(m, i, j) <= E.INF, d(m, i, j))),
            ('members are items', FA([a, p], Implies(And(0 <= a, a < v.len, 0 <= p, p < cl(E, v, a).len), And(0 <= mem(E, v, a, p), mem(E, v, a, p) < mask.len)), mem(E, v, a, p)))]


def linkdefs(E, m, v, S):
    """the link distances: the largest (complete link) or smallest (single link) distance between members; they exist since clusters are finite and not empty"""
    comp = S == 1
    wi, wa, wb = Function('wi', IntSort(), IntSort(), IntSort()), Function('wa', IntSort(), IntSort(), IntSort()), Function('wb', IntSort(), IntSort(), IntSort())
    ln = lambda k: cl(E, v, k).len
    def bound(r, e): return If(comp, e <= r, e >= r)
    return [('point to cluster', FA([i, a], Implies(full(E, v, a), And(0 <= wi(i, a), wi(i, a) < ln(a), d(m, i, mem(E, v, a, wi(i, a))) == LPC(i, a))), LPC(i, a))),
            ('point to cluster is extreme', FA([i, a, p], Implies(And(full(E, v, a), 0 <= p, p < ln(a)), bound(LPC(i, a), d(m, i, mem(E, v, a, p)))),
                                               MultiPattern(LPC(i, a), mem(E, v, a, p)))),
            ('cluster to cluster', FA([a, b], Implies(And(full(E, v, a), full(E, v, b)), And(
                0 <= wa(a, b), wa(a, b) < ln(a), 0 <= wb(a, b), wb(a, b) < ln(b), d(m, mem(E, v, a, wa(a, b)), mem(E, v, b, wb(a, b))) == LCC(a, b))), LCC(a, b))),
            ('cluster to cluster is extreme', FA([a, b, p, q], Implies(And(full(E, v, a), full(E, v, b), 0 <= p, p < ln(a), 0 <= q, q < ln(b)),
                                                                       bound(LCC(a, b), d(m, mem(E, v, a, p), mem(E, v, b, q)))),
                                                 MultiPattern(LCC(a, b), mem(E, v, a, p), mem(E, v, b, q))))]


def ret(c):
    r = c.ret
    e = r.f['first']
    return e.f['first'].f['first'], e.f['first'].f['second'], e.f['second'].f['first'], e.f['second'].f['second'], r.f['second']


def closest(E, mask, m, v, S, R, gen=FA):
    """the contract of GetClosestPair over members"""
    k1, u, k2, w, r = R
    comp = S == 1
    free = lambda t: And(0 <= t, t < mask.len, Select(mask.arr, t) == 0)
    ln = lambda k: cl(E, v, k).len
    some = Not(r == E.INF)
    far = lambda vs, dom, e: And(Implies(comp, FA(vs, Implies(dom, e <= r), e)), Exists(vs, And(dom, e == r)))
    return [('range', And(0 <= r, r <= E.INF)),
            ('two items', Implies(And(some, Not(k1), Not(k2)), And(free(u), free(w), u != w, d(m, u, w) == r))),
            ('not a cluster and then an item', Implies(some, Or(Not(k1), k2))),
            ('an item and a cluster', Implies(And(some, Not(k1), k2), And(free(u), full(E, v, w)))),
            ('an item and a cluster: link distance', Implies(And(some, Not(k1), k2), far([p], And(0 <= p, p < ln(w)), d(m, u, mem(E, v, w, p))))),
            ('two clusters', Implies(And(some, k1, k2), And(full(E, v, u), full(E, v, w), u != w))),
            ('two clusters: link distance', Implies(And(some, k1, k2), far([p, q], And(0 <= p, p < ln(u), 0 <= q, q < ln(w)), d(m, mem(E, v, u, p), mem(E, v, w, q))))),
            ] + apart(E, mask, m, v, S, r, gen)


def apart(E, mask, m, v, S, r, gen=FA):
    """no two elements have a smaller link distance than r"""
    comp = S == 1
    free = lambda t: And(0 <= t, t < mask.len, Select(mask.arr, t) == 0)
    ln = lambda k: cl(E, v, k).len
    return [('items are that far apart', FA([i, j], Implies(And(free(i), free(j), i != j), d(m, i, j) >= r), d(m, i, j))),
            ('items and clusters, single link', Implies(Not(comp), FA([i, a, p], Implies(And(free(i), full(E, v, a), 0 <= p, p < ln(a)), d(m, i, mem(E, v, a, p)) >= r),
                                                                     d(m, i, mem(E, v, a, p))))),
            ('items and clusters, complete link', Implies(comp, gen([i, a], Implies(And(free(i), full(E, v, a)), Exists([p], And(0 <= p, p < ln(a), d(m, i, mem(E, v, a, p)) >= r))),
                                                                   MultiPattern(Select(mask.arr, i), Select(v.arr, a))))),
            ('clusters, single link', Implies(Not(comp), FA([a, b, p, q], Implies(And(full(E, v, a), full(E, v, b), a != b, 0 <= p, p < ln(a), 0 <= q, q < ln(b)),
                                                                                  d(m, mem(E, v, a, p), mem(E, v, b, q)) >= r), d(m, mem(E, v, a, p), mem(E, v, b, q))))),
            ('clusters, complete link', Implies(comp, gen([a, b], Implies(And(full(E, v, a), full(E, v, b), a != b), Exists([p, q], And(
                0 <= p, p < ln(a), 0 <= q, q < ln(b), d(m, mem(E, v, a, p), mem(E, v, b, q)) >= r))), MultiPattern(Select(v.arr, a), Select(v.arr, b)))))]


@C.unit('GetClosestPair')
def _(prog):
    E = Engine(prog, ext_inf=True)
    INF = E.INF
    A = lambda L: [L.argv(k) for k in range(4)]
    free = lambda mask, t: And(0 <= t, t < mask.len, Select(mask.arr, t) == 0)

    def near(L, n):
        """min_distance / min_element_pair over the items below n"""
        mask, m, v, S = A(L)
        r, e = L['min_distance'], L['min_element_pair']
        u, k2, w = e.f['first'], e.f['second'].f['first'], e.f['second'].f['second']
        return [('range', And(0 <= r, r <= INF)),
                ('attained', Implies(r < INF, And(free(mask, u), u < n, If(k2, And(full(E, v, w), LPC(u, w) == r), And(free(mask, w), u != w, d(m, u, w) == r))))),
                ('no closer item', FA([i, j], Implies(And(free(mask, i), i < n, free(mask, j), i != j), d(m, i, j) >= r), d(m, i, j))),
                ('no closer cluster', FA([i, a], Implies(And(free(mask, i), i < n, full(E, v, a)), LPC(i, a) >= r), LPC(i, a)))]

    def l0(L):
        mask = A(L)[0]
        return [('idx', And(0 <= L['idx'], L['idx'] <= mask.len))] + near(L, L['idx'])

    def here(L):
        mask = A(L)[0]
        return [('item', And(0 <= L['idx'], L['idx'] < mask.len, Select(mask.arr, L['idx']) == 0))] + near(L, L['idx'])

    def ppd(L, n):
        mask, m, v, S = A(L)
        r, w, k = L['min_point_point_distance'], L['min_point_index'], L['idx']
        return [('point range', And(0 <= r, r <= INF)), ('closest item', Implies(r < INF, And(free(mask, w), w != k, d(m, k, w) == r))),
                ('no closer item to this one', FA([j], Implies(And(free(mask, j), j < n, j != k), d(m, k, j) >= r), d(m, k, j)))]

    def l1(L):
        return here(L) + [('jdx', And(0 <= L['jdx'], L['jdx'] <= A(L)[0].len))] + ppd(L, L['jdx'])

    def pcd(L, n):
        mask, m, v, S = A(L)
        r, w, k = L['min_point_cluster_distance'], L['min_cluster_index'], L['idx']
        return [('cluster range', And(0 <= r, r <= INF)), ('closest cluster', Implies(r < INF, And(full(E, v, w), LPC(k, w) == r))),
                ('no closer cluster to this item', FA([a], Implies(And(full(E, v, a), a < n), LPC(k, a) >= r), LPC(k, a)))]

    def l2(L):
        mask, m, v, S = A(L)
        return here(L) + ppd(L, mask.len) + [('cdx', And(0 <= L['cdx'], L['cdx'] <= v.len))] + pcd(L, L['cdx'])

    def l3(L):
        mask, m, v, S = A(L)
        k, c, n = L['idx'], L['cdx'], L['cpdx']
        hi, lo = L['complete_link_distance'], L['single_link_distance']
        e = d(m, k, mem(E, v, c, p))
        return here(L) + ppd(L, mask.len) + [('cdx', full(E, v, c)), ('cpdx', And(0 <= n, n <= cl(E, v, c).len)), ('ranges', And(0 <= hi, hi <= INF, 0 <= lo, lo <= INF))] + pcd(L, c) + [
            ('largest', FA([p], Implies(And(0 <= p, p < n), And(e <= hi, e >= lo)), mem(E, v, c, p))),
            ('largest attained', Or(hi == 0, Exists([p], And(0 <= p, p < n, e == hi)))), ('smallest attained', Or(lo == INF, Exists([p], And(0 <= p, p < n, e == lo))))]

    def x3(L):
        L.E.lemma(L.st, 'link distance of item and cluster', If(A(L)[3] == 1, L['complete_link_distance'], L['single_link_distance']) == LPC(L['idx'], L['cdx']))

    def ccd(L, n, s):
        mask, m, v, S = A(L)
        r, e = L['min_cluster_cluster_distance'], L['min_cluster_pair']
        u, w = e.f['first'], e.f['second']
        return [('pair range', And(0 <= r, r <= INF)), ('closest pair', Implies(r < INF, And(full(E, v, u), full(E, v, w), u != w, LCC(u, w) == r))),
                ('no closer pair', FA([a, b], Implies(And(full(E, v, a), full(E, v, b), a != b, Or(a < n, And(a == n, b < s))), LCC(a, b) >= r), LCC(a, b)))]

    def l4(L):
        mask, m, v, S = A(L)
        return near(L, mask.len) + [('fcdx', And(0 <= L['fcdx'], L['fcdx'] <= v.len))] + ccd(L, L['fcdx'], 0)

    def l5(L):
        mask, m, v, S = A(L)
        return near(L, mask.len) + [('fcdx', full(E, v, L['fcdx'])), ('scdx', And(0 <= L['scdx'], L['scdx'] <= v.len))] + ccd(L, L['fcdx'], L['scdx'])

    def ext(L, n, s):
        mask, m, v, S = A(L)
        f, g = L['fcdx'], L['scdx']
        hi, lo = L['complete_link_distance'], L['single_link_distance']
        e = d(m, mem(E, v, f, p), mem(E, v, g, q))
        dom = And(0 <= p, p < cl(E, v, f).len, 0 <= q, q < cl(E, v, g).len, Or(p < n, And(p == n, q < s)))
        return near(L, mask.len) + [('clusters', And(full(E, v, f), full(E, v, g), f != g)), ('ranges', And(0 <= hi, hi <= INF, 0 <= lo, lo <= INF))] + ccd(L, f, g) + [
            ('extremes', FA([p, q], Implies(dom, And(e <= hi, e >= lo)), MultiPattern(mem(E, v, f, p), mem(E, v, g, q)))),
            ('largest attained', Or(hi == 0, Exists([p, q], And(dom, e == hi)))), ('smallest attained', Or(lo == INF, Exists([p, q], And(dom, e == lo))))]

    def l6(L):
        return [('fcpx', And(0 <= L['fcpx'], L['fcpx'] <= cl(E, A(L)[2], L['fcdx']).len))] + ext(L, L['fcpx'], 0)

    def l7(L):
        v = A(L)[2]
        return [('fcpx', And(0 <= L['fcpx'], L['fcpx'] < cl(E, v, L['fcdx']).len)), ('scpx', And(0 <= L['scpx'], L['scpx'] <= cl(E, v, L['scdx']).len))] + ext(L, L['fcpx'], L['scpx'])

    def x6(L):
        L.E.lemma(L.st, 'link distance of two clusters', If(A(L)[3] == 1, L['complete_link_distance'], L['single_link_distance']) == LCC(L['fcdx'], L['scdx']))

    n = lambda k: (lambda L: A(L)[0].len - L[k])
    nc = lambda k: (lambda L: A(L)[2].len - L[k])

    def pre(c):
        mask, m, v, S = [c.arg(k) for k in range(4)]
        return wf(E, mask, m, v) + linkdefs(E, m, v, S)

    def post(c):
        mask, m, v, S = [c.arg(k) for k in range(4)]
        r = ret(c)[4]
        # instances of the link distances
        E.lemma(c.st1, 'items and clusters', FA([i, a], Implies(And(free(mask, i), full(E, v, a)), LPC(i, a) >= r), LPC(i, a)))
        E.lemma(c.st1, 'clusters', FA([a, b], Implies(And(full(E, v, a), full(E, v, b), a != b), LCC(a, b) >= r), LCC(a, b)))
        # the postconditions of complete link are proved for arbitrary constants i, a, b
        c.st1.assume(Real('lpc_ia') == LPC(i, a), Real('lcc_ab') == LCC(a, b))
        return closest(E, mask, m, v, S, ret(c), gen=lambda vs, f, *pats: f)
    E.verify(prog.fn(NS + 'GetClosestPair'), pre=pre, post=post,
             loops=[Loop(l0, decreases=n('idx')), Loop(l1, decreases=n('jdx')), Loop(l2, decreases=nc('cdx')),
                    Loop(l3, decreases=lambda L: cl(E, A(L)[2], L['cdx']).len - L['cpdx'], on_exit=x3),
                    Loop(l4, decreases=nc('fcdx')), Loop(l5, decreases=nc('scdx')),
                    Loop(l6, decreases=lambda L: cl(E, A(L)[2], L['fcdx']).len - L['fcpx'], on_exit=x6), Loop(l7, decreases=lambda L: cl(E, A(L)[2], L['scdx']).len - L['scpx'])])
    return E


rep = Function('label', IntSort(), IntSort())
x, y, k = Ints('x y k')


class Final:
    """where the items are in the returned clusters"""
    def __init__(s, E, c):
        g = c.st1.ghost
        s.E, s.data, s.m, s.maxd, s.S = E, c.arg(0), c.arg(1), c.arg(2), c.arg(3)
        s.mask, s.ci, s.own, s.ps, s.oc, s.ic, s.oi, s.ii, s.K0 = [g[n] for n in ('mask', 'ci', 'own', 'ps', 'oc', 'ic', 'oi', 'ii', 'K0')]
        s.out, s.r = c.ret.f['first'], c.ret.f['second']

    def clustered(s, x):
        return Select(s.mask.arr, x) == 1

    def place(s, x):
        return If(s.clustered(x), Select(s.oc, Select(s.own, x)), Select(s.oi, x))

    def slot(s, x):
        return If(s.clustered(x), Select(s.ps, x), 0)

    def src(s, k, p):
        return If(k < s.K0, mem(s.E, s.ci, Select(s.ic, k), p), Select(s.ii, k))


def ghost_def(st, name, f):
    """a ghost array given by its elements"""
    n = FreshConst(ArraySort(IntSort(), IntSort()), name)
    st.assume(FA([x], Select(n, x) == f(x), Select(n, x)))
    return n


@C.unit('Cluster')
def _(prog):
    E = Engine(prog, ext_inf=True)
    INF = E.INF
    gcp = prog.fn(NS + 'GetClosestPair')
    E.contracts[gcp['id']] = Contract(pre=lambda c: wf(E, *[c.arg(t) for t in range(3)]), post=lambda c: closest(E, *[c.arg(t) for t in range(4)], ret(c)))
    f = prog.fn(NS + 'Cluster', lambda P, f: P.ty(f['p'][1]['t']).deref().is_mat)
    A = lambda L: [L.argv(t) for t in range(4)]

    def state(L, mask, ci):
        data, m, maxd, S = A(L)
        own, ps = L.st.ghost['own'], L.st.ghost['ps']
        n = data.len
        on = lambda x: And(0 <= x, x < n, Select(mask.arr, x) == 1)
        ln = lambda t: cl(E, ci, t).len
        o, s = Select(own, x), Select(ps, x)
        t = mem(E, ci, a, p)
        same = And(on(x), on(y), Select(own, x) == Select(own, y))
        return [('mask', And(mask.len == n, FA([x], Implies(And(0 <= x, x < n), Or(Select(mask.arr, x) == 0, Select(mask.arr, x) == 1)), Select(mask.arr, x)))),
                ('lengths', FA([a], Implies(And(0 <= a, a < ci.len), ln(a) >= 0), Select(ci.arr, a))),
                ('clustered items are in their cluster', FA([x], Implies(on(x), And(0 <= o, o < ci.len, 0 <= s, s < ln(o), mem(E, ci, o, s) == x)), Select(mask.arr, x))),
                ('members are clustered items', FA([a, p], Implies(And(0 <= a, a < ci.len, 0 <= p, p < ln(a)), And(on(t), Select(own, t) == a, Select(ps, t) == p)), t)),
                ('complete link', Implies(S == 1, FA([x, y], Implies(And(same, x != y), d(m, x, y) <= maxd), MultiPattern(Select(own, x), Select(own, y))))),
                ('single link', Implies(S != 1, FA([x, y], Implies(same, rep(x) == rep(y)), MultiPattern(Select(own, x), Select(own, y)))))]

    def ended(L, mask, ci, r):
        data, m, maxd, S = A(L)
        own = L.st.ghost['own']
        return [('stopped above the limit', And(0 <= r, r <= INF, Or(r > maxd, r == INF)))] + apart(E, mask, m, ci, S, r) + [
            ('remaining distance is attained', Or(r == INF, Exists([x, y], And(0 <= x, x < data.len, 0 <= y, y < data.len, x != y, d(m, x, y) == r, Not(And(
                Select(mask.arr, x) == 1, Select(mask.arr, y) == 1, Select(own, x) == Select(own, y)))))))]

    def merge(L):
        mask, ci, r = L['datapoint_mask'], L['cluster_indices'], L['closest_distance']
        return state(L, mask, ci) + [(n, Implies(L['complete'], g)) for n, g in ended(L, mask, ci, r)]

    def step(L):
        mask, ci, P = L.prev['datapoint_mask'], L.prev['cluster_indices'], L['closest_element_pair']
        e = P.f['first']
        k1, u, k2, w, r = e.f['first'].f['first'], e.f['first'].f['second'], e.f['second'].f['first'], e.f['second'].f['second'], P.f['second']
        st, (data, m, maxd, S) = L.st, A(L)
        own, ps = L.prev.st.ghost['own'], L.prev.st.ghost['ps']
        on = lambda x: Select(mask.arr, x) == 1
        mo = And(r <= maxd, r < INF)
        new = And(mo, Not(k1), Not(k2))
        add = And(mo, Not(k1), k2)
        mrg = And(mo, k1, k2)
        mv = lambda x: And(mrg, on(x), Select(own, x) == w)
        st.ghost['own'] = ghost_def(st, 'own', lambda x: If(And(new, Or(x == u, x == w)), ci.len, If(And(add, x == u), w, If(mv(x), u, Select(own, x)))))
        st.ghost['ps'] = ghost_def(st, 'ps', lambda x: If(And(new, x == u), 0, If(And(new, x == w), 1, If(And(add, x == u), cl(E, ci, w).len,
                                                                                                                If(mv(x), Select(ps, x) + cl(E, ci, u).len, Select(ps, x))))))

    def clusters_done(g, data, ci, out, n, K):
        oc, ic = g['oc'], g['ic']
        o = Select(oc, a)
        return [('clusters so far', FA([a], Implies(And(full(E, ci, a), a < n), And(0 <= o, o < K, Select(ic, o) == a, cl(E, out, o).len == cl(E, ci, a).len)), Select(oc, a))),
                ('their items', FA([a, p], Implies(And(full(E, ci, a), a < n, 0 <= p, p < cl(E, ci, a).len), mem(E, out, o, p) == Select(data.arr, mem(E, ci, a, p))),
                                   mem(E, ci, a, p))),
                ('only these', FA([k], Implies(And(0 <= k, k < K), And(full(E, ci, Select(ic, k)), Select(ic, k) < n, Select(oc, Select(ic, k)) == k)), Select(ic, k)))]

    def base(L):
        mask, ci, r = L['datapoint_mask'], L['cluster_indices'], L['closest_distance']
        return state(L, mask, ci) + ended(L, mask, ci, r)

    def setup_out(L):
        for n in ('oc', 'ic', 'oi', 'ii'):
            L.st.ghost[n] = FreshConst(ArraySort(IntSort(), IntSort()), n)

    def e1(L):
        ci, out = L['cluster_indices'], L['clusters']
        return base(L) + [('idx', And(0 <= L['idx'], L['idx'] <= ci.len)), ('count', out.len <= L['idx'])] + clusters_done(L.st.ghost, A(L)[0], ci, out, L['idx'], out.len)

    def e1_in(L):
        ci, out, new = L['cluster_indices'], L['clusters'], L['new_cluster']
        n = L['cdx']
        return base(L) + [('idx', full(E, ci, L['idx'])), ('cdx', And(0 <= n, n <= cl(E, ci, L['idx']).len, new.len == n)), ('count', out.len <= L['idx'])] + clusters_done(
            L.st.ghost, A(L)[0], ci, out, L['idx'], out.len) + [
            ('copied', FA([p], Implies(And(0 <= p, p < n), Select(new.arr, p) == Select(A(L)[0].arr, mem(E, ci, L['idx'], p))), Select(new.arr, p), mem(E, ci, L['idx'], p)))]

    def e1_step(L):
        g, n, ci, K = L.st.ghost, L.prev['idx'], L['cluster_indices'], L.prev['clusters'].len
        f = cl(E, ci, n).len > 0
        g['oc'] = If(f, Store(L.prev.st.ghost['oc'], n, K), L.prev.st.ghost['oc'])
        g['ic'] = If(f, Store(L.prev.st.ghost['ic'], K, n), L.prev.st.ghost['ic'])

    def e1_exit(L):
        L.st.ghost['K0'] = L['clusters'].len
        L.st.ghost['ci'] = L['cluster_indices']
        L.st.ghost['mask'] = L['datapoint_mask']

    def e2(L):
        data, mask, ci, out, n, g = A(L)[0], L['datapoint_mask'], L['cluster_indices'], L['clusters'], L['idx'], L.st.ghost
        K0, oi, ii = g['K0'], g['oi'], g['ii']
        o = Select(oi, x)
        return base(L) + [('idx', And(0 <= n, n <= data.len)), ('clusters come first', And(0 <= K0, K0 <= out.len))] + clusters_done(g, data, ci, out, ci.len, K0) + [
            ('single items', FA([x], Implies(And(0 <= x, x < n, Select(mask.arr, x) == 0), And(K0 <= o, o < out.len, Select(ii, o) == x, cl(E, out, o).len == 1,
                                                                                              mem(E, out, o, 0) == Select(data.arr, x))), Select(oi, x))),
            ('only these single items', FA([k], Implies(And(K0 <= k, k < out.len), And(0 <= Select(ii, k), Select(ii, k) < n, Select(mask.arr, Select(ii, k)) == 0,
                                                                                       Select(oi, Select(ii, k)) == k)), Select(ii, k)))]

    def e2_step(L):
        g, n, K, mask = L.st.ghost, L.prev['idx'], L.prev['clusters'].len, L['datapoint_mask']
        f = Select(mask.arr, n) == 0
        g['oi'] = If(f, Store(L.prev.st.ghost['oi'], n, K), L.prev.st.ghost['oi'])
        g['ii'] = If(f, Store(L.prev.st.ghost['ii'], K, n), L.prev.st.ghost['ii'])

    def pre(c):
        data, m, maxd, S = [c.arg(t) for t in range(4)]
        return [('matrix of the data', And(m.rows == data.len, m.cols == data.len, data.len < 2 ** 40)), ('distances', FA([i, j], And(d(m, i, j) >= 0, d(m, i, j) <= INF), d(m, i, j))),
                ('symmetric', FA([i, j], d(m, i, j) == d(m, j, i), d(m, i, j))),
                ('any labelling that is constant along links within the limit', FA([i, j], Implies(And(0 <= i, i < data.len, 0 <= j, j < data.len, d(m, i, j) <= maxd, d(m, i, j) < INF),
                                                                                                  rep(i) == rep(j)), d(m, i, j)))]

    def post(c):
        F = Final(E, c)
        n, out, m, S = F.data.len, F.out, F.m, F.S
        it = lambda x: And(0 <= x, x < n)
        X, Y = Ints('item other')
        A_, B_, P_ = Ints('clu1 clu2 pos')
        s = F.src(A_, P_)
        two = And(it(X), it(Y), X != Y)
        for t in (A_, B_):
            for n_, g in (('ic', F.ic), ('ii', F.ii)):
                c.st1.assume(FreshInt(n_) == Select(g, t))
            u, w = Select(F.ic, t), Select(F.ii, t)
            E.lemma(c.st1, 'a returned cluster is a merged cluster', Implies(And(0 <= t, t < F.K0), And(full(E, F.ci, u), Select(F.oc, u) == t, cl(E, out, t).len == cl(E, F.ci, u).len)))
            E.lemma(c.st1, 'or a single item', Implies(And(F.K0 <= t, t < out.len), And(it(w), Select(F.mask.arr, w) == 0, Select(F.oi, w) == t, cl(E, out, t).len == 1)))
        sides = dict(merged=lambda t: And(0 <= t, t < F.K0), single=lambda t: And(F.K0 <= t, t < out.len))
        aparts = [(f'complete link: different clusters have items apart ({k1} and {k2})', Implies(And(S == 1, g1(A_), g2(B_), A_ != B_), Exists([x, y], And(
            it(x), it(y), F.place(x) == A_, F.place(y) == B_, d(m, x, y) >= F.r)))) for k1, g1 in sides.items() for k2, g2 in sides.items()]
        return [('every item is in one cluster', Implies(it(X), And(0 <= F.place(X), F.place(X) < out.len, 0 <= F.slot(X), F.slot(X) < cl(E, out, F.place(X)).len,
                                                                   mem(E, out, F.place(X), F.slot(X)) == Select(F.data.arr, X)))),
                ('no cluster is empty', Implies(And(0 <= A_, A_ < out.len), cl(E, out, A_).len > 0)),
                ('every member is an item, once', Implies(And(0 <= A_, A_ < out.len, 0 <= P_, P_ < cl(E, out, A_).len), And(it(s), F.place(s) == A_, F.slot(s) == P_))),
                ('complete link: items of one cluster are within the limit', Implies(And(S == 1, two, F.place(X) == F.place(Y)), d(m, X, Y) <= F.maxd)),
                ('single link: items of one cluster are connected within the limit', Implies(And(S != 1, two, F.place(X) == F.place(Y)), rep(X) == rep(Y))),
                ('single link: items of different clusters are apart', Implies(And(S != 1, two, F.place(X) != F.place(Y)), d(m, X, Y) >= F.r)),
                ('nothing more to merge', Or(F.r > F.maxd, F.r == INF)),
                ('the remaining distance is attained', Or(F.r == INF, Exists([x, y], And(it(x), it(y), F.place(x) != F.place(y), d(m, x, y) == F.r))))] + aparts

    def setup(E, c, st):
        for n in ('own', 'ps'):
            st.ghost[n] = FreshConst(ArraySort(IntSort(), IntSort()), n)
    E.verify(f, name='Cluster(data, matrix)', setup=setup, pre=pre, post=post,
             loops=[Loop(merge, on_body=lambda L: L.st.assume(L['cluster_indices'].len < 2 ** 60), on_step=step, ghosts=['own', 'ps']),
                    Loop(e1, setup=setup_out, decreases=lambda L: L['cluster_indices'].len - L['idx'], on_step=e1_step, on_exit=e1_exit, ghosts=['oc', 'ic']),
                    Loop(e1_in, decreases=lambda L: cl(E, L['cluster_indices'], L['idx']).len - L['cdx']),
                    Loop(e2, decreases=lambda L: L['datapoint_mask'].len - L['idx'], on_step=e2_step, ghosts=['oi', 'ii'])])
    return E


@C.unit('Cluster from a distance function')
def _(prog):
    E = Engine(prog, ext_inf=True)
    fm = prog.fn(NS + 'Cluster', lambda P, f: P.ty(f['p'][1]['t']).deref().is_mat)
    ff = prog.fn(NS + 'Cluster', lambda P, f: not P.ty(f['p'][1]['t']).deref().is_mat)
    bd = prog.fn('arc_helpers::BuildDistanceMatrixSerial', lambda P, f: len(f['p']) == 2)
    M = Array('pairwise_distances', IntSort(), ArraySort(IntSort(), RealSort()))
    # BuildDistanceMatrixSerial under its contract of C10: size and cells are those of the pairwise distances
    E.contracts[bd['id']] = Contract(post=lambda c: [('size', And(c.ret.rows == c.arg(0).len, c.ret.cols == c.arg(0).len)), ('cells', c.ret.arr == M)])
    R = Function('result_distance', RealSort(), IntSort(), RealSort())
    E.contracts[fm['id']] = Contract(pre=lambda c: [('the matrix of the data', And(c.arg(1).rows == c.arg(0).len, c.arg(1).cols == c.arg(0).len, c.arg(1).arr == M)),
                                                    ('the same data', And(c.arg(0).len == TOP[0].arg(0).len, c.arg(0).arr == TOP[0].arg(0).arr)),
                                                    ('the same limit', c.arg(2) == TOP[0].arg(2)), ('the same strategy', c.arg(3) == TOP[0].arg(3))],
                                     post=lambda c: [('a function of its arguments', c.ret.f['second'] == R(c.arg(2), c.arg(3)))])
    TOP = []
    E.verify(ff, name='Cluster(data, function)', setup=lambda E, c, st: TOP.append(c), post=lambda c: [('the result for the matrix', c.ret.f['second'] == R(c.arg(2), c.arg(3)))])
    return E


C.cpp('c23.cpp', secs=(10, 90), flags=['-fopenmp', '-DENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING'], libs=['-lgomp'], opt='-O2')
C.cpp('c23.cpp', secs=(10, 90), opt='-O2')
if __name__ == '__main__':
    run(C)
