import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include "/repo/include/arc_utilities/simple_kmeans_clustering.hpp"
struct Thing { int id; };
typedef std::vector<Thing> V;
typedef std::vector<double> W;
inline void use(const V& a, const W& w, const std::function<double(const Thing&, const Thing&)>& d, const std::function<Thing(const V&)>& m,
                const std::function<Thing(const V&, const W&)>& mw) {
  using namespace simple_kmeans_clustering;
  SimpleKMeansClustering::Cluster(a, d, m, a);
  SimpleKMeansClustering::Cluster(a, d, m, uint32_t(2));
  SimpleKMeansClustering::ClusterWeighted(a, w, d, mw, a);
  SimpleKMeansClustering::ClusterWeighted(a, w, d, mw, uint32_t(2));
}
'''
C = Check('C24', tus=dict(main=TU),
          proof_scope='every function of SimpleKMeansClustering, for any data, distance and average functions and any random choice (partial correctness)',
          assumptions=['distance and average functions are pure, distances are finite', 'termination is not proved: it depends on the average function (the harness runs means of numbers under a timer)',
                       'the standard distributions return values of their support'])
NS = 'simple_kmeans_clustering::SimpleKMeansClustering::'
i, j, x, y, p, g = Ints('i j x y p g')


def engine(prog):
    E = Engine(prog)
    E.dbl = next(prog.ty(k) for k in range(len(prog.types)) if prog.types[k]['k'] == 'float' and prog.types[k].get('w') == 64)
    return E


def item(E, v, k):
    return E.S.unpack(v.et, Select(v.arr, k))


def dist(E, st, f, center, point, et):
    return E.call_ufun(st, f, [(et, center), (et, point)], E.dbl)


def D(E, st, f, centers, c, data, k):
    return dist(E, st, f, item(E, centers, c), item(E, data, k), data.et)


def finite(E, st, f, et):
    s = E.S.sort(et)
    a, b = Const('da', s), Const('db', s)
    t = dist(E, st, f, E.S.unpack(et, a), E.S.unpack(et, b), et)
    return FA([a, b], And(t < E.INF, t > -E.INF), t)


def nearest(E, st, f, centers, lab, data, k):
    t = D(E, st, f, centers, j, data, k)
    b = D(E, st, f, centers, lab, data, k)
    return And(0 <= lab, lab < centers.len, FA([j], Implies(And(0 <= j, j < centers.len), And(b <= t, Implies(j < lab, b < t))), Select(centers.arr, j)))


def labelled(E, st, f, centers, data, labels, n=None):
    n = data.len if n is None else n
    return FA([i], Implies(And(0 <= i, i < n), nearest(E, st, f, centers, Select(labels.arr, i), data, i)), Select(labels.arr, i))


def label_range(labels, k):
    return FA([i], Implies(And(0 <= i, i < labels.len), And(0 <= Select(labels.arr, i), Select(labels.arr, i) < k)), Select(labels.arr, i))


def closest_contract(E):
    """GetClosestCluster(point, distance, centers)"""
    def post(c):
        pt, f, ce = c.arg(0), c.arg(1), c.arg(2)
        st, r = c.st1, c.ret
        et = ce.et
        d = lambda k: dist(E, st, f, item(E, ce, k), pt, et)
        return [('a center', And(0 <= r, r < ce.len)),
                ('the nearest, first among equals', FA([j], Implies(And(0 <= j, j < ce.len), And(d(r) <= d(j), Implies(j < r, d(r) < d(j)))), Select(ce.arr, j)))]
    return Contract(pre=lambda c: [('centers', And(c.arg(2).len >= 1, c.arg(2).len < 2 ** 32 - 1)), ('finite distances', finite(E, c.st0, c.arg(1), c.arg(2).et))], post=post)


def iter_contract(E):
    """PerformSingleClusteringIteration(data, distance, centers)"""
    return Contract(pre=lambda c: [('centers', And(c.arg(2).len >= 1, c.arg(2).len < 2 ** 32 - 1)), ('finite distances', finite(E, c.st0, c.arg(1), c.arg(0).et))],
                    post=lambda c: [('one label per item', c.ret.len == c.arg(0).len), ('nearest centers', labelled(E, c.st1, c.arg(1), c.arg(2), c.arg(0), c.ret))])


class Groups:
    """the items (and weights) of each label, in order: grp[g] holds item i at position pos[i]; src(g, p) is the item there"""
    def __init__(s, E, data, weights, labels, k, grp, wgrp, pos, src):
        s.E, s.data, s.weights, s.labels, s.k, s.grp, s.wgrp, s.pos, s.src = E, data, weights, labels, k, grp, wgrp, pos, src

    def facts(s, n):
        E = s.E
        lab = lambda t: Select(s.labels.arr, t)
        G = lambda t: item(E, s.grp, t)
        P = Select(s.pos, x)
        S = Select(Select(s.src, g), p)
        mine = And(0 <= x, x < n)
        r = [('one group per label', s.grp.len == s.k), ('lengths', FA([g], Implies(And(0 <= g, g < s.k), And(G(g).len >= 0, G(g).len <= n)), Select(s.grp.arr, g))),
             ('every item is in the group of its label', FA([x], Implies(mine, And(0 <= P, P < G(lab(x)).len, Select(G(lab(x)).arr, P) == Select(s.data.arr, x))), P)),
             ('every member is an item with that label', FA([g, p], Implies(And(0 <= g, g < s.k, 0 <= p, p < G(g).len), And(0 <= S, S < n, lab(S) == g, Select(s.pos, S) == p)), S)),
             ('in the order of the data', FA([x, y], Implies(And(mine, x < y, y < n, lab(x) == lab(y)), P < Select(s.pos, y)), MultiPattern(P, Select(s.pos, y))))]
        if s.weights is not None:
            H = lambda t: item(E, s.wgrp, t)
            r += [('one weight group per label', s.wgrp.len == s.k), ('as many weights', FA([g], Implies(And(0 <= g, g < s.k), H(g).len == G(g).len), Select(s.wgrp.arr, g))),
                  ('weights go with their items', FA([x], Implies(mine, Select(H(lab(x)).arr, P) == Select(s.weights.arr, x)), P))]
        return r

    def average(s, st, f, t):
        E = s.E
        G = item(E, s.grp, t)
        args = [(s.grp.et, G)]
        if s.weights is not None:
            args.append((s.wgrp.et, item(E, s.wgrp, t)))
        return E.S.pack(s.data.et, E.call_ufun(st, f, args, s.data.et))

    def centers(s, st, f, ce, n):
        return FA([g], Implies(And(0 <= g, g < n), Select(ce.arr, g) == s.average(st, f, g)), Select(ce.arr, g))


AI = ArraySort(IntSort(), IntSort())
AAI = ArraySort(IntSort(), AI)


def centers_contract(E, w):
    """ComputeClusterCenters[Weighted](data, [weights,] labels, average, k)"""
    a = lambda c, k: c.arg(k + (1 if w and k > 0 else 0))

    def pre(c):
        data, labels, k = a(c, 0), a(c, 1), a(c, 3)
        return [('labels', And(labels.len == data.len, label_range(labels, k), k >= 1))] + ([('weights', c.arg(1).len == data.len)] if w else [])

    def post(c):
        data, labels, f, k = a(c, 0), a(c, 1), a(c, 2), a(c, 3)
        gh = c.st1.ghost
        if E.own is None:       # at a call: the groups exist
            ty = E.group_types
            gh['grp'] = E.havoc(c.st1, ty[0], 'grp')
            gh['wgrp'] = E.havoc(c.st1, ty[1], 'wgrp') if w else None
            gh['pos'], gh['src'] = FreshConst(AI, 'pos'), FreshConst(AAI, 'src')
        G = Groups(E, data, c.arg(1) if w else None, labels, k, gh['grp'], gh.get('wgrp'), gh['pos'], gh['src'])
        return [('one center per label', c.ret.len == k)] + G.facts(data.len) + [('each center is the average of its group', G.centers(c.st1, f, c.ret, k))]
    return Contract(pre=pre, post=post)


@C.unit('GetClosestCluster')
def _(prog):
    E = engine(prog)

    def inv(L):
        pt, f, ce, n, b, r = L.argv(0), L.argv(1), L.argv(2), L['cluster'], L['best_label'], L['best_distance']
        d = lambda k: dist(E, L.st, f, item(E, ce, k), pt, ce.et)
        return [('cluster', And(0 <= n, n <= ce.len)), ('best', If(n == 0, And(b == -1, r == E.INF), And(0 <= b, b < n, r == d(b)))),
                ('nearest so far', FA([j], Implies(And(0 <= j, j < n), And(r <= d(j), Implies(j < b, r < d(j)))), Select(ce.arr, j)))]
    k = closest_contract(E)
    E.verify(prog.fn(NS + 'GetClosestCluster'), pre=k.pre, post=k.post, loops=[Loop(inv, decreases=lambda L: L.argv(2).len - L['cluster'])])
    return E


@C.unit('PerformSingleClusteringIteration')
def _(prog):
    E = engine(prog)
    E.contracts[prog.fn(NS + 'GetClosestCluster')['id']] = closest_contract(E)

    def inv(L):
        data, f, ce, n, lab = L.argv(0), L.argv(1), L.argv(2), L['idx'], L['cluster_labels']
        return [('idx', And(0 <= n, n <= data.len, lab.len == data.len)), ('labels so far', labelled(E, L.st, f, ce, data, lab, n))]
    k = iter_contract(E)
    E.verify(prog.fn(NS + 'PerformSingleClusteringIteration'), pre=k.pre, post=k.post, loops=[Loop(inv, decreases=lambda L: L.argv(0).len - L['idx'])])
    return E


def centers_unit(name, w):
    @C.unit(name)
    def _(prog):
        E = engine(prog)
        E.own = True
        a = lambda L, k: L.argv(k + (1 if w and k > 0 else 0))

        def groups(L, done=False):
            gh = L.st.ghost
            return Groups(E, a(L, 0), L.argv(1) if w else None, a(L, 1), a(L, 3), L['clustered_data'], L['clustered_weights'] if w else None, gh['pos'], gh['src'])

        def split(L):
            return [('idx', And(0 <= L['idx'], L['idx'] <= a(L, 0).len))] + groups(L).facts(L['idx'])

        def step(L):
            gh, old = L.st.ghost, L.prev.st.ghost
            n = L.prev['idx']
            t = Select(a(L, 1).arr, n)
            q = item(E, L.prev['clustered_data'], t).len
            gh['pos'] = Store(old['pos'], n, q)
            gh['src'] = Store(old['src'], t, Store(Select(old['src'], t), q, n))

        def start(L):
            gh = L.st.ghost
            gh['pos'], gh['src'] = FreshConst(AI, 'pos'), FreshConst(AAI, 'src')

        def avg(L):
            ce = L['cluster_centers']
            G = groups(L)
            return [('cluster', And(0 <= L['cluster'], L['cluster'] <= a(L, 3))), ('one center per label', ce.len == a(L, 3))] + G.facts(a(L, 0).len) + [
                ('averages so far', G.centers(L.st, a(L, 2), ce, L['cluster']))]

        def done(L):
            L.st.ghost['grp'] = L['clustered_data']
            L.st.ghost['wgrp'] = L['clustered_weights'] if w else None
        k = centers_contract(E, w)
        E.verify(prog.fn(NS + name), pre=k.pre, post=k.post,
                 loops=[Loop(split, setup=start, decreases=lambda L: a(L, 0).len - L['idx'], on_step=step, ghosts=['pos', 'src']),
                        Loop(avg, decreases=lambda L: a(L, 3) - L['cluster'], on_exit=done)])
        return E


centers_unit('ComputeClusterCenters', False)
centers_unit('ComputeClusterCentersWeighted', True)


def conv_contract(E):
    same = lambda a, b: FA([i], Implies(And(0 <= i, i < a.len), Select(a.arr, i) == Select(b.arr, i)), Select(a.arr, i), Select(b.arr, i))
    return Contract(pre=lambda c: [('sizes', c.arg(0).len == c.arg(1).len)], post=lambda c: [('converged exactly if all labels agree', c.ret == same(c.arg(0), c.arg(1)))])


@C.unit('CheckForConvergence')
def _(prog):
    E = engine(prog)

    def inv(L):
        u, v, n = L.argv(0), L.argv(1), L['idx']
        return [('idx', And(0 <= n, n <= u.len)), ('equal so far', FA([i], Implies(And(0 <= i, i < n), Select(u.arr, i) == Select(v.arr, i)), Select(u.arr, i), Select(v.arr, i)))]
    k = conv_contract(E)
    E.verify(prog.fn(NS + 'CheckForConvergence'), pre=k.pre, post=k.post, loops=[Loop(inv, decreases=lambda L: L.argv(0).len - L['idx'])])
    return E


def cluster_unit(name, w):
    o = 1 if w else 0
    centers = 'ComputeClusterCentersWeighted' if w else 'ComputeClusterCenters'

    def setup_contracts(prog, E):
        E.own = None
        cc = prog.fn(NS + centers)
        vt = prog.ty(cc['p'][0]['t']).deref()
        E.group_types = [vec_of(prog, vt), vec_of(prog, prog.ty(cc['p'][1]['t']).deref()) if w else None]
        E.contracts[cc['id']] = centers_contract(E, w)
        E.contracts[prog.fn(NS + 'PerformSingleClusteringIteration')['id']] = iter_contract(E)
        E.contracts[prog.fn(NS + 'CheckForConvergence')['id']] = conv_contract(E)

    @C.unit(name + ' from given centers')
    def _(prog):
        E = engine(prog)
        setup_contracts(prog, E)

        def solved(L_st, data, wts, df, af, labels, ce, k, gh):
            G = Groups(E, data, wts, labels, k, gh['grp'], gh.get('wgrp'), gh['pos'], gh['src'])
            return [('labels are nearest centers', labelled(E, L_st, df, ce, data, labels))] + G.facts(data.len) + [('centers are averages of their items', G.centers(L_st, af, ce, k))]

        def inv(L):
            data, ce, lab = L.argv(0), L['cluster_centers'], L['cluster_labels']
            gh = L.st.ghost
            r = [('one label per item', And(lab.len == data.len, label_range(lab, ce.len))), ('as many centers', And(ce.len == L['num_clusters'], ce.len >= 1, ce.len < 2 ** 32 - 1))]
            return r + [(n, Implies(L['converged'], f)) for n, f in solved(L.st, data, L.argv(1) if w else None, L.argv(1 + o), L.argv(2 + o), lab, ce, ce.len, gh)]

        def start(E, c, st):
            st.ghost['grp'] = E.havoc(st, E.group_types[0], 'grp')
            if w:
                st.ghost['wgrp'] = E.havoc(st, E.group_types[1], 'wgrp')
            st.ghost['pos'], st.ghost['src'] = FreshConst(AI, 'pos'), FreshConst(AAI, 'src')

        def pre(c):
            return [('centers', And(c.arg(3 + o).len >= 1, c.arg(3 + o).len < 2 ** 32 - 1)), ('finite distances', finite(E, c.st0, c.arg(1 + o), c.arg(0).et))] + (
                [('weights', c.arg(1).len == c.arg(0).len)] if w else [])

        def post(c):
            lab, ce = c.ret.f['first'], c.ret.f['second']
            return [('one label per item', lab.len == c.arg(0).len), ('one center per given center', ce.len == c.arg(3 + o).len)] + solved(
                c.st1, c.arg(0), c.arg(1) if w else None, c.arg(1 + o), c.arg(2 + o), lab, ce, ce.len, c.st1.ghost)
        f = prog.fn(NS + name, lambda P, f: len(f['p']) == 4 + o)
        E.verify(f, name=f'{name}(centers)', setup=start, pre=pre, post=post, loops=[Loop(inv, ghosts=['grp', 'pos', 'src'] + (['wgrp'] if w else []))])
        return E

    @C.unit(name + ' from random centers')
    def _(prog):
        E = engine(prog)
        setup_contracts(prog, E)
        fc = prog.fn(NS + name, lambda P, f: len(f['p']) == 4 + o)
        fr = prog.fn(NS + name, lambda P, f: len(f['p']) == 5 + o)
        ok = lambda c, lab, k: [('one label per item', lab.len == c.arg(0).len), ('labels of clusters', label_range(lab, k))]
        weights = lambda c: [('weights', c.arg(1).len == c.arg(0).len)] if w else []
        E.contracts[fc['id']] = Contract(pre=lambda c: [('centers', And(c.arg(3 + o).len >= 1, c.arg(3 + o).len < 2 ** 32 - 1)), ('finite distances', finite(E, c.st0, c.arg(1 + o), c.arg(0).et))] + weights(c),
                                         post=lambda c: ok(c, c.ret.f['first'], c.arg(3 + o).len))
        pre = lambda c: [('data and clusters', And(c.arg(0).len >= 1, c.arg(0).len < 2 ** 40, c.arg(3 + o) >= 1, c.arg(3 + o) < 2 ** 28)), ('finite distances', finite(E, c.st0, c.arg(1 + o), c.arg(0).et))] + weights(c)
        post = lambda c: ok(c, c.ret, c.arg(3 + o))
        E.contracts[fr['id']] = Contract(pre=pre, post=post)

        def pick(L):
            m = L['index_map']
            return [('chosen items', FA([x], Implies(Select(m.dom, x), And(0 <= x, x < L.argv(0).len, Select(m.val, x) == 1)), Select(m.dom, x)))]

        def more(L, n):
            return L['index_map'].size <= n

        def fill(var, extra=()):
            def f(L):
                m, n = L['index_map'], L['itr'].idx
                return pick(L) + [('position', And(n >= 0, n <= m.size)), ('one for each choice', And(*[L[v].len == n for v in (var,) + tuple(extra)]))]
            return Loop(f, decreases=lambda L: L['index_map'].size - L['itr'].idx)
        subset = Loop(lambda L: pick(L) + [('not too many', more(L, L['subset_size']))])
        some = Loop(lambda L: pick(L) + [('not too many', more(L, L.argv(3 + o)))])
        E.verify(fr, name=f'{name}(number of clusters)', pre=pre, post=post, loops=[subset, fill('random_subset', ['random_subset_weights'] if w else []), some, fill('cluster_centers')])
        return E


def vec_of(prog, vt):
    """the type of vectors of vt"""
    for k in range(len(prog.types)):
        t = prog.ty(k)
        if t.is_vec and t.args and t.args[0].deref().is_vec and t.args[0].deref().args[0].deref().s == vt.args[0].deref().s:
            return t
    raise Exception('no vector of groups')


cluster_unit('Cluster', False)
cluster_unit('ClusterWeighted', True)

C.cpp('c24.cpp', secs=(15, 120), opt='-O2')
if __name__ == '__main__':
    run(C)
