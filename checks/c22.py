import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, State, FA

TU = '''#include "/repo/include/arc_utilities/simple_dtw.hpp"
#include "/repo/include/arc_utilities/simple_hausdorff_distance.hpp"
struct Thing { int id; };
struct Other { int id; };
typedef std::function<double(const Thing&, const Other&)> Fn;
inline double use(const std::vector<Thing>& a, const std::vector<Other>& b, const Fn& f) {
  simple_dtw::SimpleDTW<Thing, Other, Fn> d, e(3, 4);
  d.EvaluateWarpingCost(a, b, f);
  simple_dtw::ComputeDTWDistance<Thing, Other, Fn>(a, b, f);
  return simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance<Thing, Other>(a, b, f);
}
'''
C = Check('C22', tus=dict(main=TU),
          proof_scope='SimpleDTW (constructors, matrix setup, EvaluateWarpingCost in any state of the evaluator), ComputeDTWDistance and the serial Hausdorff distance, for any '
                      'element types, sequences and non-negative distance function',
          assumptions=['the distance function is pure and its values are not negative (infinity allowed, no NaN)', 'the Hausdorff loop with OpenMP threads runs in the replay '
                       'harness only (bounded)', 'double sums are exact, overflowing to infinity'])
NS = 'simple_dtw::SimpleDTW::'
D = Function('warp', IntSort(), IntSort(), RealSort())
i, j = Ints('i j')


class A:
    """argument view of a loop head"""
    def __init__(s, L):
        s.st0, s.st1, s.L = L.st, L.st, L

    def arg(s, k):
        return s.L.argv(k)


def dist(E, c, x, y):
    f, a, b = c.arg(2), c.arg(0), c.arg(1)
    return E.call_ufun(c.st1 or c.st0, f, [(a.et, E.S.unpack(a.et, Select(a.arr, x))), (b.et, E.S.unpack(b.et, Select(b.arr, y)))], E.dbl)


def engine(prog):
    E = Engine(prog, ext_inf=True)
    E.dbl = next(prog.ty(k) for k in range(len(prog.types)) if prog.types[k]['k'] == 'float' and prog.types[k].get('w') == 64)
    return E


def at(m, x, y):
    return Select(Select(m.arr, x), y)


def borders(E, t):
    m = t.f['dtw_matrix_']
    return [('not empty', And(m.rows >= 1, m.cols >= 1)), ('corner', at(m, 0, 0) == 0),
            ('left border', FA([i], Implies(And(0 < i, i < m.rows), at(m, i, 0) == E.INF), at(m, i, 0))),
            ('top border', FA([j], Implies(And(0 < j, j < m.cols), at(m, 0, j) == E.INF), at(m, 0, j)))]


def base(E):
    return [('no step', D(0, 0) == 0), ('first empty', FA([j], Implies(j > 0, D(0, j) == E.INF), D(0, j))), ('second empty', FA([i], Implies(i > 0, D(i, 0) == E.INF), D(i, 0)))]


def low(a, b):
    return If(a <= b, a, b)


def step(E, c, x, y):
    """the least cost of aligning the first x and y elements, from the three alignments it can extend"""
    d = dist(E, c, x - 1, y - 1)
    m = low(low(D(x - 1, y), D(x, y - 1)), D(x - 1, y - 1))
    return D(x, y) == If(Or(d == E.INF, m == E.INF, d + m >= E.INF), E.INF, d + m)


def some(E, c):
    x, y = Ints('x y')
    return FA([x, y], dist(E, c, x, y) >= 0)


def init_contract(E):
    def post(c):
        m = c.this1.f['dtw_matrix_']
        return borders(E, c.this1) + [('large enough', And(m.rows > c.arg(0), m.cols > c.arg(1)))]
    return Contract(pre=lambda c: [('sizes', And(c.arg(0) < 2 ** 40, c.arg(1) < 2 ** 40))] + borders(E, c.this), post=post)


def row_inv(fresh):
    def f(L):
        m, E = L.this.f['dtw_matrix_'], L.E
        return m, E
    return f


@C.unit('the matrix borders')
def _(prog):
    E = engine(prog)

    def rows(L):
        m, r = L.this.f['dtw_matrix_'], L['row']
        return [('row', And(1 <= r, r <= m.rows)), ('size', And(m.rows == L.argv(0) + 1, m.cols == L.argv(1) + 1)), ('corner', at(m, 0, 0) == 0),
                ('left border so far', FA([i], Implies(And(0 < i, i < r), at(m, i, 0) == L.E.INF), at(m, i, 0)))]

    def cols(L):
        m, r = L.this.f['dtw_matrix_'], L['col']
        return [('col', And(1 <= r, r <= m.cols)), ('size', And(m.rows == L.argv(0) + 1, m.cols == L.argv(1) + 1)), ('corner', at(m, 0, 0) == 0),
                ('left border', FA([i], Implies(And(0 < i, i < m.rows), at(m, i, 0) == L.E.INF), at(m, i, 0))),
                ('top border so far', FA([j], Implies(And(0 < j, j < r), at(m, 0, j) == L.E.INF), at(m, 0, j)))]
    loops = [Loop(rows, decreases=lambda L: L.this.f['dtw_matrix_'].rows - L['row']), Loop(cols, decreases=lambda L: L.this.f['dtw_matrix_'].cols - L['col'])]
    k = init_contract(E)
    E.verify(prog.fn(NS + 'InitializeMatrix'), pre=k.pre, post=k.post, loops=loops)
    for f in prog.find(NS + 'SimpleDTW'):
        if len(f['p']) in (0, 2) and not f.get('implicit') and f.get('body'):
            E = engine(prog)
            # the constructor runs on an empty matrix, on which the borders do not hold: it is verified with the body of InitializeMatrix
            E.verify(f, name=f'SimpleDTW({len(f["p"])} arguments)', pre=(lambda c: [('sizes', And(c.arg(0) < 2 ** 40, c.arg(1) < 2 ** 40))]) if f['p'] else None,
                     post=lambda c: borders(E, c.this1))
    return E


@C.unit('EvaluateWarpingCost')
def _(prog):
    E = engine(prog)
    E.contracts[prog.fn(NS + 'InitializeMatrix')['id']] = init_contract(E)

    def cells(L, m, r, q):
        """rows below r, and row r up to column q"""
        return FA([i, j], Implies(And(0 <= i, i <= L.argv(0).len, 0 <= j, j <= L.argv(1).len, Or(i < r, And(i == r, j < q), i == 0, j == 0)), at(m, i, j) == D(i, j)), at(m, i, j))

    def outer(L):
        m, r = L.this.f['dtw_matrix_'], L['i']
        return [('i', And(1 <= r, r <= L.argv(0).len + 1)), ('size', And(m.rows > L.argv(0).len, m.cols > L.argv(1).len)), ('rows so far', cells(L, m, r, 0))] + borders(L.E, L.this)

    def inner(L):
        m, r, q = L.this.f['dtw_matrix_'], L['i'], L['j']
        return [('i', And(1 <= r, r <= L.argv(0).len)), ('j', And(1 <= q, q <= L.argv(1).len + 1)), ('size', And(m.rows > L.argv(0).len, m.cols > L.argv(1).len)),
                ('cells so far', cells(L, m, r, q))] + borders(L.E, L.this)

    def body(L):
        L.st.assume(step(L.E, A(L), L['i'], L['j']), dist(L.E, A(L), L['i'] - 1, L['j'] - 1) >= 0)
        x, y = L['i'], L['j']
        for u, v in ((x - 1, y), (x, y - 1), (x - 1, y - 1)):
            L.st.assume(D(u, v) >= 0)
    E.verify(prog.fn(NS + 'EvaluateWarpingCost'), pre=lambda c: [('sizes', And(c.arg(0).len < 2 ** 40, c.arg(1).len < 2 ** 40))] + borders(E, c.this) + base(E),
             post=lambda c: [('least warping cost', c.ret == D(c.arg(0).len, c.arg(1).len))] + borders(E, c.this1),
             loops=[Loop(outer, decreases=lambda L: L.argv(0).len - L['i']), Loop(inner, decreases=lambda L: L.argv(1).len - L['j'], on_body=body)])
    return E


@C.unit('ComputeDTWDistance')
def _(prog):
    E = engine(prog)
    for f in prog.find(NS + 'SimpleDTW'):
        if len(f['p']) == 0 and f.get('body'):
            E.contracts[f['id']] = Contract(post=lambda c: borders(E, c.this1))
    E.contracts[prog.fn(NS + 'EvaluateWarpingCost')['id']] = Contract(
        pre=lambda c: borders(E, c.this), post=lambda c: [('least warping cost', c.ret == D(c.arg(0).len, c.arg(1).len))] + borders(E, c.this1))
    E.verify(prog.fn('simple_dtw::ComputeDTWDistance'), post=lambda c: [('least warping cost', c.ret == D(c.arg(0).len, c.arg(1).len))])
    return E


@C.unit('the recursive cost is the least over all warping paths')
def _(prog):
    E = engine(prog)
    INF = E.INF
    # a warping path: cells (pi(k), pj(k)) from (1,1), each next one step down, right, or both; C is its running cost
    pi, pj = Function('pi', IntSort(), IntSort()), Function('pj', IntSort(), IntSort())
    Cs, d = Function('path_cost', IntSort(), RealSort()), Function('cell_cost', IntSort(), IntSort(), RealSort())
    k = Int('k')
    x, y = pi(k), pj(k)
    add = lambda a, b: If(Or(a == INF, b == INF, a + b >= INF), INF, a + b)
    rec = lambda x, y: D(x, y) == add(d(x, y), low(low(D(x - 1, y), D(x, y - 1)), D(x - 1, y - 1)))
    st = State()
    st.assume(INF > 10 ** 6, D(0, 0) == 0, FA([j], Implies(j > 0, D(0, j) == INF), D(0, j)), FA([i], Implies(i > 0, D(i, 0) == INF), D(i, 0)), FA([i, j], d(i, j) >= 0))
    E.lemma(st, 'costs are not negative (induction step)', Implies(And(rec(x, y), D(x - 1, y) >= 0, D(x, y - 1) >= 0, D(x - 1, y - 1) >= 0), D(x, y) >= 0))
    E.lemma(st, 'no path is cheaper: first cell', Implies(And(rec(1, 1), D(0, 0) == 0), D(1, 1) == add(d(1, 1), RealVal(0))))
    u, v = pi(k + 1), pj(k + 1)
    move = Or(And(u == x + 1, v == y), And(u == x, v == y + 1), And(u == x + 1, v == y + 1))
    E.lemma(st, 'no path is cheaper: step', Implies(And(rec(u, v), move, x >= 1, y >= 1, D(x, y) <= Cs(k), D(u, v) >= 0, Cs(k) <= INF, Cs(k) >= 0, D(x, y) >= 0,
                                                            Cs(k + 1) == add(Cs(k), d(u, v)), D(u - 1, v) >= 0, D(u, v - 1) >= 0, D(u - 1, v - 1) >= 0, d(u, v) <= INF), D(u, v) <= Cs(k + 1)))
    E.lemma(st, 'some path costs that much: its last step', Implies(rec(x, y), Or(*[D(x, y) == add(d(x, y), p) for p in (D(x - 1, y), D(x, y - 1), D(x - 1, y - 1))])))
    return E


@C.unit('Hausdorff distance')
def _(prog):
    E = engine(prog)

    def ok(c, r, n):
        """the maximum over the first n elements of the distance to the nearest element"""
        m = c.arg(1).len
        return [('not negative', And(r >= 0, r <= E.INF)),
                ('every element is that near to the other set', FA([i], Implies(And(0 <= i, i < n), Or(r == E.INF, Exists([j], And(0 <= j, j < m, dist(E, c, i, j) <= r)))),
                                                                   Select(c.arg(0).arr, i))),
                ('some element is that far from the other set', Or(r == 0, Exists([i], And(0 <= i, i < n, FA([j], Implies(And(0 <= j, j < m), dist(E, c, i, j) >= r),
                                                                                                               Select(c.arg(1).arr, j))))))]

    def outer(L):
        s = L['per_thread_storage']
        return [('idx', And(0 <= L['idx'], L['idx'] <= L.argv(0).len)), ('one slot', s.len == 1)] + ok(A(L), Select(s.arr, 0), L['idx'])

    def inner(L):
        c, r, q, p = A(L), L['minimum_distance'], L['jdx'], L['idx']
        s = L['per_thread_storage']
        return [('idx', And(0 <= p, p < L.argv(0).len)), ('jdx', And(0 <= q, q <= L.argv(1).len)), ('one slot', s.len == 1)] + ok(c, Select(s.arr, 0), p) + [
            ('nearest so far', FA([j], Implies(And(0 <= j, j < q), dist(L.E, c, p, j) >= r), Select(L.argv(1).arr, j))), ('range', And(r >= 0, r <= L.E.INF)),
            ('attained', Or(r == L.E.INF, Exists([j], And(0 <= j, j < q, dist(L.E, c, p, j) == r))))]

    def last(L):
        s, r, q = L['per_thread_storage'], L['maximum_minimum_distance'], L['idx']
        return [('idx', And(0 <= q, q <= 1)), ('one slot', s.len == 1)] + ok(A(L), Select(s.arr, 0), L.argv(0).len) + [('so far', r == If(q == 0, RealVal(0), Select(s.arr, 0)))]
    nn = lambda L: L.st.assume(dist(L.E, A(L), L['idx'], L['jdx']) >= 0)
    E.verify(prog.fn('simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance'), post=lambda c: ok(c, c.ret, c.arg(0).len),
             loops=[Loop(outer, decreases=lambda L: L.argv(0).len - L['idx']), Loop(inner, decreases=lambda L: L.argv(1).len - L['jdx'], on_body=nn),
                    Loop(last, decreases=lambda L: 1 - L['idx'])])
    return E


C.cpp('c22.cpp', secs=(14, 90), flags=['-fopenmp', '-DENABLE_PARALLEL_HAUSDORFF_DISTANCE'], libs=['-lgomp'], opt='-O2')
C.cpp('c22.cpp', secs=(8, 60), opt='-O2')

if __name__ == '__main__':
    run(C)
