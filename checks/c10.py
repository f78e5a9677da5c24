import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from z3 import *
from framework import *
from vc import Engine, Loop, Contract, FA

TU = '''#include "/repo/include/arc_utilities/arc_helpers.hpp"
struct Thing { int id; };
struct Other { int id; };
inline void use() {
std::vector<Thing> a; std::vector<Other> b;
std::function<double(const Thing&, const Thing&)> f; std::function<double(const Thing&, const Other&)> g;
arc_helpers::BuildDistanceMatrixParallel(a, f); arc_helpers::BuildDistanceMatrixSerial(a, f);
arc_helpers::BuildDistanceMatrixParallel(a, b, g); arc_helpers::BuildDistanceMatrixSerial(a, b, g);
}
'''
C = Check('C10', tus=dict(main=TU, omp='#define _OPENMP 201511\n' + TU),
          proof_scope='the four BuildDistanceMatrix functions for any element type, any distance function and any sizes (parallel loops in sequential order)',
          assumptions=['the distance function is a pure function of its two arguments',
                       'iterations of the OpenMP loops are taken one after the other; the real threads run in the replay harness'])


def at(m, i, j):
    return Select(Select(m.arr, i), j)


def dist(E, c, fi, t0, i, t1, j):
    """the distance function applied to elements i and j"""
    f, a, b = c.arg(fi), c.arg(t0), c.arg(t1)
    tys = [p.et for p in (a, b)]
    st = c.st1 or c.st0
    return E.call_ufun(st, f, [(tys[0], E.S.unpack(tys[0], Select(a.arr, i))), (tys[1], E.S.unpack(tys[1], Select(b.arr, j)))], E.dbl)


def unit(fn, two, tu):
    def go(prog):
        E = Engine(prog)
        f = prog.fn('arc_helpers::' + fn, lambda P, f: len(f['p']) == (3 if two else 2))
        E.dbl = next(prog.ty(i) for i in range(len(prog.types)) if prog.types[i]['k'] == 'float' and prog.types[i].get('w') == 64)
        i, j = Ints('i j')
        fi, bi = (2, 1) if two else (1, 0)

        def full(c, m, lo, hi, i=i, j=j):
            return FA([i, j], Implies(And(lo <= i, i < hi, 0 <= j, j < c.arg(bi).len),
                                      at(m, i, j) == (dist(E, c, fi, 0, i, bi, j) if two else
                                                      If(i == j, 0, If(i < j, dist(E, c, fi, 0, i, bi, j), dist(E, c, fi, 0, j, bi, i))))), at(m, i, j))

        class A:
            st1 = None

            def __init__(s, L):
                s.st0, s.L = L.st, L

            def arg(s, k):
                return s.L.argv(k)

        def outer(L):
            m, n, k = L['distance_matrix'], L.argv(0).len, L['idx']
            c = A(L)
            r = [('idx', And(0 <= k, k <= n)), ('size', And(m.rows == n, m.cols == L.argv(bi).len))]
            if two:
                return r + [('rows so far', full(c, m, 0, k))]
            return r + [('rows so far', full(c, m, 0, k)),
                        ('columns so far', FA([i, j], Implies(And(k <= i, i < n, 0 <= j, j < k), at(m, i, j) == dist(E, c, fi, 0, j, bi, i)), at(m, i, j)))]

        def inner(L):
            m, n, k, q = L['distance_matrix'], L.argv(0).len, L['idx'], L['jdx']
            c = A(L)
            r = [('idx', And(0 <= k, k < n, q >= (0 if two else k), q <= L.argv(bi).len)), ('size', And(m.rows == n, m.cols == L.argv(bi).len)),
                 ('rows so far', full(c, m, 0, k))]
            if two:
                return r + [('this row', FA([j], Implies(And(0 <= j, j < q), at(m, k, j) == dist(E, c, fi, 0, k, bi, j)), at(m, k, j)))]
            return r + [('columns so far', FA([i, j], Implies(And(k <= i, i < n, 0 <= j, j < k), at(m, i, j) == dist(E, c, fi, 0, j, bi, i)), at(m, i, j))),
                        ('this row', FA([j], Implies(And(k <= j, j < q), at(m, k, j) == If(j == k, 0, dist(E, c, fi, 0, k, bi, j))), at(m, k, j))),
                        ('this column', FA([j], Implies(And(k <= j, j < q), at(m, j, k) == If(j == k, 0, dist(E, c, fi, 0, k, bi, j))), at(m, j, k)))]

        E.verify(f, name='arc_helpers::' + fn + (' (two sets)' if two else ''),
                 post=lambda c: [('size', And(c.ret.rows == c.arg(0).len, c.ret.cols == c.arg(bi).len)), ('every cell', full(c, c.ret, 0, c.arg(0).len))],
                 loops=[Loop(outer, decreases=lambda L: L.argv(0).len - L['idx']), Loop(inner, decreases=lambda L: L.argv(bi).len - L['jdx'])])
        return E
    C.unit(f'{fn}{" two sets" if two else ""}', tu)(go)


for fn, tu in (('BuildDistanceMatrixSerial', 'main'), ('BuildDistanceMatrixParallel', 'omp')):
    for two in (False, True):
        unit(fn, two, tu)

C.cpp('c10.cpp', secs=(10, 60), flags=['-fopenmp'], libs=['-lgomp'])

if __name__ == '__main__':
    run(C)
